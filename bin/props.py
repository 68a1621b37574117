"""What each check runs besides the driver's scenarios."""


def doc(*names):
    return [{"spec": "WireDoc", "cfg": "WireDoc_%s.cfg" % n} for n in names]


def gen(suffix, *names):
    return [{"name": n, "spec": "WireDoc", "cfg": "WireDoc_d_%s_%s.cfg" % (n, suffix)} for n in names]


BIG = [{"spec": "WireDoc", "cfg": "WireDoc_valsbig.cfg", "thorough_only": True, "workers": 4, "timeout": 3000},
       {"spec": "WireDoc", "cfg": "WireDoc_nestbig.cfg", "thorough_only": True, "workers": 4, "timeout": 3000}]

PROPS = {
    "C01": dict(mc=doc("ids", "vals") + BIG, gen=gen("binary", "ids", "vals", "nest")),
    "C02": dict(mc=doc("ids", "vals") + BIG, gen=gen("compact", "ids", "vals", "nest")),
    "C03": dict(mc=doc("ids", "vals") + BIG, gen=gen("binary", "ids", "vals", "nest")),
    "C04": dict(mc=doc("ids", "vals") + BIG, gen=gen("compact", "ids", "vals", "nest")),
    "C05": dict(mc=doc("msgs"), gen=gen("all", "msgs")),
    "C06": dict(mc=doc("nest") + BIG, gen=gen("all", "ids", "vals", "nest")),
    "C07": {},
    "C08": dict(mc=[{"spec": "Session", "cfg": "Session.cfg"}, {"spec": "Session", "cfg": "Session_greedy.cfg", "expect": "Deadlock reached"},
                    {"spec": "Session", "cfg": "Session_big.cfg", "thorough_only": True, "workers": 4}],
                gen=[{"name": "scripts", "spec": "Session", "cfg": "Session_gen.cfg"}]),
    "C09": dict(mc=doc("nest") + BIG), "C10": {}, "C11": {}, "C12": {},
}
ARSH = [{"spec": "ArshDoc", "cfg": "ArshDoc_flat.cfg"}, {"spec": "ArshDoc", "cfg": "ArshDoc_pairs.cfg"},
        {"spec": "ArshDoc", "cfg": "ArshDoc_nested.cfg", "thorough_only": True, "workers": 4, "timeout": 3000}]
AGEN = [{"name": n, "spec": "ArshDoc", "cfg": "ArshDoc_gen_%s.cfg" % n} for n in ("flat", "pairs")]
AGEN[0]["cfg_thorough"] = "ArshDoc_gen_nested.cfg"

for i in range(13, 29):
    PROPS["C%02d" % i] = {}
for p in ("C13", "C14", "C15", "C16"):
    PROPS[p] = dict(mc=ARSH, gen=AGEN)
PROPS["C28"] = dict(mc=ARSH)

IDL = [{"spec": "IdlDoc", "cfg": "IdlDoc.cfg"}]
IGEN = [{"name": "idl", "spec": "IdlDoc", "cfg": "IdlDoc_gen.cfg"}]
LEX = [{"spec": "LexDoc", "cfg": "LexDoc.cfg"}, {"spec": "LexDoc", "cfg": "LexDoc_long.cfg", "thorough_only": True, "workers": 4}]
PROPS["C20"] = dict(mc=IDL, gen=IGEN)
PROPS["C21"] = dict(mc=IDL + LEX, gen=IGEN)
PROPS["C23"] = dict(mc=IDL, gen=IGEN)
PROPS["C24"] = dict(mc=LEX)
PROPS["C25"] = dict(mc=[{"spec": "MemoDoc", "cfg": "MemoDoc.cfg"}], gen=[{"name": "memo", "spec": "MemoDoc", "cfg": "MemoDoc_gen.cfg"}])
PROPS["C26"] = dict(mc=[{"spec": "BufDoc", "cfg": "BufDoc.cfg"}, {"spec": "BufDoc", "cfg": "BufDoc_big.cfg", "thorough_only": True, "workers": 4}])
SUITE = ["header", "decoded", "leftover", "again", "skip"]
PROPS["C27"] = dict(mc=[{"spec": "SuiteDoc", "cfg": "SuiteDoc.cfg"}] +
                    [{"spec": "SuiteDoc", "cfg": "SuiteDoc_no_%s.cfg" % n, "expect": "Invariant Verdict is violated"} for n in SUITE],
                    gen=[{"name": "suite", "spec": "SuiteDoc", "cfg": "SuiteDoc_gen.cfg"}])
PROPS["C18"] = dict(mc=[{"spec": "TagsDoc", "cfg": "TagsDoc.cfg"}, {"spec": "TagsDoc", "cfg": "TagsDoc_big.cfg", "thorough_only": True, "workers": 4}],
                    gen=[{"name": "tags", "spec": "TagsDoc", "cfg": "TagsDoc_gen.cfg", "cfg_thorough": "TagsDoc_gen4.cfg"}])
CACHE = [{"spec": "CacheDoc", "cfg": "CacheDoc_%s.cfg" % n} for n in ("self", "tree", "mutual", "wide", "ends")]
CACHE += [{"spec": "CacheDoc", "cfg": "CacheDoc_%s.cfg" % n, "thorough_only": True, "workers": 4, "timeout": 3000} for n in ("mutual3", "deep")]
CACHE += [{"spec": "CacheDoc", "cfg": "CacheDoc_no_%s.cfg" % n, "expect": e} for n, e in (
    ("nested", "Deadlock reached"), ("early", "Invariant Complete is violated"), ("replace", "Action property Stays is violated"),
    ("holding", "Deadlock reached"), ("shared", "Invariant AsAlone is violated"))]
PROPS["C19"] = dict(race=True, mc=CACHE, gen=[
    {"name": "c" + n, "spec": "CacheGen", "cfg": "CacheGen_%s.cfg" % n, "extra": ["-deadlock", "-simulate", "num=60", "-depth", "1000", "-seed", "@SEED"],
     "extra_thorough": ["-deadlock", "-simulate", "num=1200", "-depth", "1000", "-seed", "@SEED"]} for n in ("self", "tree", "mutual")])
