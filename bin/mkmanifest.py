#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification checked with TLC; TLC validates traces of the real code against it"
REPLAY = TRACE + "; behaviours TLC generates are replayed into the real code"
CHECKS = {
    "C01": REPLAY, "C02": REPLAY, "C03": REPLAY, "C04": REPLAY, "C05": REPLAY, "C06": REPLAY,
    "C13": REPLAY, "C14": REPLAY, "C15": REPLAY, "C16": REPLAY, "C17": TRACE,
    "C20": REPLAY, "C21": REPLAY, "C22": TRACE, "C23": REPLAY, "C24": TRACE,
    "C25": REPLAY, "C26": TRACE, "C28": TRACE, "C27": REPLAY, "C18": REPLAY, "C19": REPLAY + "; recorded under the Go race detector",
    "C07": TRACE, "C08": REPLAY, "C09": TRACE, "C10": TRACE, "C11": TRACE, "C12": TRACE,
}
NOTE = ("The specification is explored exhaustively within small constants; the code is judged by validating recorded and "
        "replayed behaviours (bounded, seeded), so code paths and inputs that were not executed are not covered.")
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "checks": [dict(property=p, quick_cmd="python3 bin/check.py %s" % p, thorough_cmd="python3 bin/check.py %s --thorough" % p,
                    evidence_file="evidence/%s.json" % p, technique=CHECKS[p], level="model_checking", level_note=NOTE)
               for p in props if p in CHECKS],
    "not_applicable": [dict(property=p, reason="check under construction") for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
