#!/usr/bin/env python3
"""Decides one property:  python3 bin/check.py C01 [--thorough] [--only KIND_OF_STEP]

1. builds the driver in harness/ against /repo's working tree,
2. has TLC explore the specification (model checking of the design),
3. has TLC generate behaviours of the specification for replay,
4. runs the driver: replays them, and records its own scenarios,
5. has TLC validate every recorded trace against the specification.

exit 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS  # noqa: E402

JAVA = ["java", "-XX:+UseParallelGC", "-Xss256m"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), HOME=os.environ.get("HOME", "/root"))
for v in ("GOENV",):
    GOENV[v] = "off"


class Error(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def tlc(work, spec, cfg, tag, env=None, workers=2, heap="3g", extra=(), timeout=800):
    """Runs TLC; returns its output, or raises Error if it did not finish."""
    meta = os.path.join(work, "tlc-" + tag)
    os.makedirs(meta, exist_ok=True)
    cmd = JAVA + ["-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
                  "-workers", str(workers), "-config", cfg, *extra, spec + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Error("TLC did not finish %s %s within %d s" % (spec, cfg, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def states_of(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = re.findall(r"The number of states generated: (\d+)", out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def tail(out, n=60):
    return "\n".join(out.splitlines()[-n:])


def build(work, race):
    exe = os.path.join(work, "vh-race" if race else "vh")
    src = os.path.join(ROOT, "harness")
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", exe, "."]
    p = subprocess.run(cmd, cwd=src, env=GOENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Error("building the driver against /repo failed:\n" + p.stdout)
    return exe


def model_check(work, k, mc, tier):
    """Explores a configuration of the specification itself."""
    env = {"TIER": tier}
    extra = list(mc.get("extra", []))
    code, out = tlc(work, mc["spec"], mc["cfg"], "mc%d" % k, env, workers=mc.get("workers", 2), extra=extra,
                    timeout=mc.get("timeout", 800))
    if mc.get("expect"):
        if mc["expect"] not in out:
            raise Error("%s %s should have failed with %r\n%s" % (mc["spec"], mc["cfg"], mc["expect"], tail(out)))
        st, tr = states_of(out)
        return {"spec": mc["spec"], "cfg": mc["cfg"], "states": st, "transitions": tr, "expected": mc["expect"]}
    if code != 0:
        raise Error("model checking %s %s: the specification itself fails\n%s" % (mc["spec"], mc["cfg"], tail(out)))
    st, tr = states_of(out)
    return {"spec": mc["spec"], "cfg": mc["cfg"], "states": st, "transitions": tr}


def generate(work, gen, g, seed, tier):
    """Dumps behaviours of the specification for replay into gen/NAME.ndjson."""
    path = os.path.join(gen, g["name"] + ".ndjson")
    extra = [e.replace("@SEED", str(seed)) for e in g.get("extra", [])]
    if tier == "thorough" and "extra_thorough" in g:
        extra = [e.replace("@SEED", str(seed)) for e in g["extra_thorough"]]
    cfg = g["cfg_thorough"] if tier == "thorough" and "cfg_thorough" in g else g["cfg"]
    code, out = tlc(work, g["spec"], cfg, "gen-" + g["name"], {"GEN": path, "TIER": tier}, workers=g.get("workers", 1), extra=extra,
                    timeout=g.get("timeout", 800))
    if code != 0:
        raise Error("generating from %s %s failed\n%s" % (g["spec"], cfg, tail(out)))
    if not os.path.exists(path):
        # behaviours printed by the specification
        with open(path, "w") as f:
            for line in out.splitlines():
                if line.startswith('"GEN '):
                    f.write(json.loads(line)[4:] + "\n")
    n = sum(1 for _ in open(path))
    if n == 0:
        raise Error("%s %s generated nothing\n%s" % (g["spec"], g["cfg"], tail(out)))
    st, tr = states_of(out)
    return {"spec": g["spec"], "cfg": g["cfg"], "behaviours": n, "states": st, "transitions": tr}


def validate(work, kind, k, path, nlines, events, timeout):
    spec = kind + "Trace"
    code, out = tlc(work, spec, spec + ".cfg", "tr-%s-%d" % (kind, k), {"TRACE": path}, workers=2, timeout=timeout)
    rej = re.findall(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+)', out)
    if code != 0:
        # What the specification cannot even evaluate is no behaviour of it.
        at = re.findall(r"^/\\ t = (\d+)$", out, re.M), re.findall(r"^/\\ i = (\d+)$", out, re.M)
        if "The behavior up to this point" in out and at[0] and at[1] and "StackOverflow" not in out and "OutOfMemory" not in out:
            with open(path) as fh:
                line = fh.read().splitlines()[int(at[0][-1]) - 1]
            rej.append((json.loads(line)["id"], at[1][-1]))
    if code != 0 and not rej:
        raise Error("validating %s %s failed\n%s" % (kind, path, tail(out)))
    st, tr = states_of(out)
    if code == 0 and not rej and kind not in NONDET and st != nlines + events:
        raise Error("TLC visited %d states of %s, not the %d of the traces\n%s" % (st, path, nlines + events, tail(out)))
    return st, tr, rej, out


NONDET = {"Idl"}  # more states than events


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    begun = time.time()
    evidence = os.path.join(ROOT, "evidence")
    os.makedirs(evidence, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = check(prop, tier, seed, cfg, begun, evidence, work)
    except Error as e:
        log("ERROR:", e)
        code = 2
    finally:
        if "--keep" in sys.argv:
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, tier, seed, cfg, begun, evidence, work):
    gen = os.path.join(work, "gen")
    rec = os.path.join(work, "rec")
    os.makedirs(gen)
    os.makedirs(rec)
    budget = 3000 if tier == "thorough" else 700
    pool = cf.ThreadPoolExecutor(max_workers=6)
    fbuild = pool.submit(build, work, cfg.get("race", False))
    fgen = [pool.submit(generate, work, gen, g, seed, tier) for g in cfg.get("gen", [])]
    fmc = [pool.submit(model_check, work, k, mc, tier) for k, mc in enumerate(cfg.get("mc", []))
           if tier == "thorough" or not mc.get("thorough_only")]
    exe = fbuild.result()
    gens = [f.result() for f in fgen]
    tbuild = time.time() - begun

    cmd = [exe, "run", "-prop", prop, "-seed", str(seed), "-tier", tier, "-out", rec, "-gen", gen]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=budget,
                       env=dict(GOENV, GOGC="200", GORACE="halt_on_error=1 exitcode=66"))
    if p.returncode != 0:
        raise Error("driver failed (%d)\n%s\n%s" % (p.returncode, p.stdout[-4000:], p.stderr[-6000:]))
    scenarios = p.stdout.strip()
    trec = time.time() - begun

    # Collect the traces, balanced over a few files per kind.
    by_kind = {}
    for f in sorted(glob.glob(os.path.join(rec, "*.ndjson"))):
        kind = os.path.basename(f).split(".")[0]
        with open(f) as fh:
            by_kind.setdefault(kind, []).extend(fh.readlines())
    jobs, violations, ntraces, nevents = [], [], 0, 0
    samples = []
    lines_of = {}
    for kind, lines in sorted(by_kind.items()):
        ntraces += len(lines)
        if kind == "Crash":
            for l in lines:
                d = json.loads(l)
                violations.append((kind, d["id"], 1, l))
            continue
        lines.sort(key=len, reverse=True)
        samples.append(min((l for l in lines), key=lambda l: abs(len(l) - 1500))[:4000].strip())
        total = sum(map(len, lines))
        shards = max(1, min(4 if tier == "quick" else 24, len(lines), total // 300000 + 1))
        for k in range(shards):
            part = lines[k::shards]
            ev = 0
            path = os.path.join(work, "%s-%d.ndjson" % (kind, k))
            with open(path, "w") as fh:
                for l in part:
                    fh.write(l)
                    ev += l.count('"c":"')
            nevents += ev
            jobs.append((kind, k, path, len(part), ev))
        lines_of[kind] = lines
    if not jobs and not violations:
        raise Error("the driver recorded nothing")
    vpool = cf.ThreadPoolExecutor(max_workers=4)
    futs = [(j, vpool.submit(validate, work, *j, budget)) for j in jobs]
    states = transitions = 0
    for (kind, k, path, n, ev), f in futs:
        st, tr, rej, out = f.result()
        states += st
        transitions += tr
        for tid, i in rej:
            violations.append((kind, tid, int(i), None))
    mcs = [f.result() for f in fmc]
    for m in mcs + gens:
        states += m["states"]
        transitions += m["transitions"]

    known = known_findings(prop)
    fresh, shown = [], set()
    for kind, tid, i, line in violations:
        hit = next((k for k in known if k["match"] in tid), None)
        if hit:
            if hit["text"] not in shown:
                shown.add(hit["text"])
                log("KNOWN-FINDING: property=%s %s" % (prop, hit["text"]))
        else:
            fresh.append((kind, tid, i, line))

    if fresh:
        os.makedirs(os.path.join(evidence, "replay"), exist_ok=True)
        for n, (kind, tid, i, line) in enumerate(fresh[:5]):
            if line is None:
                line = next(l for l in lines_of[kind] if json.loads(l)["id"] == tid)
            path = os.path.join(evidence, "replay", "%s-%d.json" % (prop, n))
            d = json.loads(line)
            ev = d["ev"][i - 1] if 0 < i <= len(d["ev"]) else None
            json.dump({"property": prop, "id": tid, "spec": kind + "Trace", "rejected_event": i, "event": ev,
                       "seed": seed, "tier": tier,
                       "how": "rejected by the trace specification at this event; re-record with: vh run -prop %s -seed %d -tier %s "
                              "-only %s -out DIR" % (prop, seed, tier, re.search(r":(\d+)\.", tid).group(1)),
                       "trace": d}, open(path, "w"))
            log("rejected: %s event %d: %s" % (tid, i, json.dumps(ev)[:600]))
            log("VIOLATION property=%s replay=%s" % (prop, path))

    cov = {
        "states": states, "transitions": transitions,
        "traces_validated_against_impl": ntraces, "events_validated": nevents,
        "model_checking_runs": mcs, "generated_behaviours": gens,
        "scenarios": scenarios,
        "samples": samples[:4] or [v[3][:2000] for v in violations[:2]],
        "explanation": cfg.get("explanation", ""),
    }
    out = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
           "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - begun, 2), "violations": len(fresh)}
    json.dump(out, open(os.path.join(evidence, prop + ".json"), "w"), indent=1)
    log("%s %s: %d traces, %d events, %d states; build+gen %.1fs, record %.1fs, total %.1fs; %s" % (
        prop, tier, ntraces, nevents, states, tbuild, trec, time.time() - begun, scenarios))
    return 1 if fresh else 0


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "text": m.group(3)})
    return out


if __name__ == "__main__":
    main()
