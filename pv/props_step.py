"""C24: the interpreter run in steps, and single accesses"""
import os, tempfile, threading
from . import engine, build, scripts, tlc
from .engine import dumps
from .gen import *
from .props_script import n
from .vals import *

SRC = ["step_n", "step_w", "step_16", "step_main"]
END = 9999


def explore(ck, families, lists, cuts):
    doc = {"families": [{"slots": [[T(x) for x in sl] for sl in slots], "args": [a + 1 for a in args]} for slots, args in families],
           "lists": lists, "nlists": max(len(a) for _, a in families), "cuts": cuts}
    fd, p = tempfile.mkstemp(prefix="enum_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        f.write(dumps(doc))
    try:
        r = tlc.run("StepEnum", None, {"ENUM": p}, heap="10g", timeout=700)
    finally:
        os.remove(p)
    ck.note_tlc(r)
    out = []
    for t in r.tuples:
        v = tlc.parse_value(t)
        if v[0] != "R":
            continue
        _, f, a, c, e, o, u, cs, h = v
        ck.acts(h)
        fam = doc["families"][f - 1]
        s = [ch for sl, i in zip(fam["slots"], c) for ch in sl[i - 1]]
        out.append(({"s": s, "A": lists[fam["args"][a - 1] - 1]}, (e, o, u, cs)))
    return out


def offset(s, p, w):
    return len(scripts.units(s[:p - 1], w))


def same(x, got, c):
    e, o, u, cs = x
    w = c["A"]["w"]
    if e == "?":
        return None
    if "notrun" in got:
        return None
    if "crash" in got:
        return False
    at = got["at"]
    want = [(q["u"], offset(c["s"], q["p"], w), scripts.units(q["o"], w)) for q in cs]
    if e:
        if got["ok"] or not (got["e"] == e or (e == "not_integer" and got["e"] in ("format_error", "invalid_conversion"))) or not -1 <= got["ep"] <= offset(c["s"], len(c["s"]) + 1, w):
            return False
    else:
        if not got["ok"]:
            return False
        want.append((u, offset(c["s"], len(c["s"]) + 1, w), scripts.units(o, w)))
    return len(at) == len(want) and all(a["n"] in (-1, q[0]) and (a["p"], a["o"]) == q[1:] for a, q in zip(at, want))


def c24(ck):
    box = {}

    def b():
        try:
            box["exe"] = build.build(SRC, "step")
        except Exception as e:
            box["err"] = e
    t = threading.Thread(target=b)
    t.start()
    lists = [ARGS([S("}{漢"), I(5), B(1)], [("x", S("é"))], w=w) for w in (0, 1, 2)]
    toks = ["a", "😀é", "{{", "}}", "{0}", "{1:>4}", "{x}", "{$ {2} ? {0} : $ {1} ? '{' : 'n'}", "{$ !{2} ? 'a':{x}}", "{7}", "{", "}", "{}", "{0[0].length}", "{$ 1 ? 'u"]
    fams = [([toks] * n(ck, 3, 4), [0]), ([toks] * 2, [1, 2]), ([toks[:5]] * n(ck, 5, 6), [0])]
    pairs = explore(ck, fams, lists, n(ck, 2, 4))
    t.join()
    if "err" in box:
        raise box["err"]
    exe = box["exe"]
    cases = [dict(c, calls=[q["u"] for q in x[3]] + [END], how=i % 8, dbg=(i // 8) % 2) for i, (c, x) in enumerate(pairs)]
    got = engine.run_cases(exe, cases)
    bad = []
    for c, (_, x), g in zip(cases, pairs, got):
        ok = same(x, g, c)
        if ok is None:
            ck.skipped += 1
        elif ok:
            ck.replayed += 1
        else:
            bad.append((c, x))
    for (c, x), g in zip(bad[:40], engine.run_cases(exe, [c for c, _ in bad[:40]])):
        if same(x, g, c) is False:
            ck.violation("StepEnum", c, x, g, "behaviour of the specification not reproduced: " + scripts.show(c["s"]))
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        ck.sample({"script": scripts.show(c["s"]), "calls": c["calls"]})
    ck.exhaustive.append("%d interrupted runs: all scripts of %d families, interrupted in every way" % (len(cases), len(fams)))
    rec = []
    for i in range(n(ck, 4000, 30000)):
        g = Gen(ck.rng, w=ck.rng.choice((0, 0, 1, 2)))
        A = g.args()
        s = g.script(A, n=g.r.randrange(1, 6), scripted=0.35)
        if g.p(0.3):
            s = g.mutated(A, s)
        c = case(s, A)
        calls = [g.pick([0, 1, 1, 2, 3, 5, 8, 13]) for _ in range(g.r.randrange(0, 9))] + [END]
        rec.append(dict(c, calls=calls, how=i % 8, dbg=(i // 8) % 2))
    for i in range(n(ck, 3000, 20000)):
        g = Gen(ck.rng, w=ck.rng.choice((0, 0, 1, 2)))
        A = g.args()
        st = {"auto": False, "n": 0}
        f = g.field(A, st, 0.9)
        cut = f.find("{") + 1
        s = f[cut:]
        if g.p(0.2):
            s = g.mutated(A, s)
        rec.append(dict(case(s, A), calls=[], how=0, dbg=i % 2))
    res = engine.run_cases(exe, rec)
    for c, r in list(zip(rec, res))[:: max(1, len(rec) // 3)][:3]:
        ck.sample({"script": scripts.show(c["s"]), "calls": c["calls"], "recorded": r})
    engine.judge(ck, "StepTrace", rec, res, exe=exe)
    ck.part("steps", enumerated=len(cases), recorded=len(rec))
