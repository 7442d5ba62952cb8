"""What the checks of the entry points and of styled output explore"""
import itertools, json
from . import engine, hist
from .gen import *
from .vals import *
from .props_hist import record

SRC = ["entry_n", "entry_w", "entry_8", "entry_16", "entry_32", "entry_main"]
EKW = {0: 0, 1: 2, 2: 1, 3: 1, 4: 3}


def n(ck, quick, thorough):
    return thorough if ck.thorough else quick


def enc_len(cps, ek):
    if ek in (2, 3):
        return len(cps)
    if ek == 1:
        return sum(1 + (c > 0xFFFF) for c in cps)
    return sum(1 + (c > 0x7F) + (c > 0x7FF) + (c > 0xFFFF) for c in cps)


def eargs(r, i=None, s=None, v=None, b=None, x=None, nn=None, u=None, loc=0):
    g = Gen(r)
    if s is None and g.p(0.1):
        s = g.pick(["a\0b", "\0", "x" * 700, "漢" * 300 + "é"])
    iv = i if i is not None else g.pick([0, 1, -1, 7, 12, 255, -2**63, 2**63 - 1, g.r.randrange(-10**6, 10**6), 0x6F22])
    return ARGS([I(iv, "i64"), S(s if s is not None else g.word()), SEQ("vec", "i", [I(k) for k in (v if v is not None else [g.r.randrange(-5, 40) for _ in range(g.r.randrange(4))])]),
                 B(b if b is not None else g.r.randrange(2)), U("cls", u if u is not None else g.pick(["ob", "漢é", "", "😀"]), g.pick(["!", "漢", "😀"]))],
                [("x", S(x if x is not None else g.word())), ("n", I(nn if nn is not None else g.r.randrange(-3, 14), "i64"))], loc=loc, tn="JA", fn="漢")


def style_ops(r):
    """a legal way to make a style"""
    ops, f, b = [], 0, 0
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        k = r.choice("sssfb")
        if k == "s":
            ops.append(["s", r.randint(1, 4)])
        elif k == "f":
            c = 0 if f else r.randint(0, 8)
            f = f or c
            ops.append(["f", c])
        else:
            c = 0 if b else r.randint(0, 8)
            b = b or c
            ops.append(["b", c])
    return ops


def F1(f, k=0, st=()):
    return {"f": f, "n": k, "st": list(st)}


def text_forms(r, ek, loc, every):
    fs = [F1("vformat"), F1("dyn", 0), F1("dyn", 1), F1("to_back"), F1("to_vec"), F1("to_deq"), F1("to_ptr"), F1("vto_back"), F1("vto_list"), F1("size")]
    if not loc:
        fs += [F1("range", k) for k in (range(8) if every else r.sample(range(8), 2))]
    if ek == 0:
        fs += [F1("os"), F1("osln")]
        if not loc:
            fs += [F1("file"), F1("fileln"), F1("out"), F1("outln")] + [F1("nl", k) for k in range(3)] + [F1("twice", k) for k in (1, 2)]
        else:
            fs.append(F1("twice", 0))
    return fs


def bound_forms(r, length, every):
    ns = list(range(length + 2)) if every and length < 14 else sorted({0, 1, max(0, length - 1), length, length + 1, r.randrange(length + 1), r.randrange(length + 1)})
    return [F1(f, k) for k in ns for f in (("n_ptr", "n_back", "n_list") if every else (r.choice(["n_ptr", "n_back", "n_list"]),))]


def ecase(ek, s, A, forms):
    A = dict(A)
    A["w"] = EKW[ek]
    return {"ek": ek, "s": T(s) if isinstance(s, str) else s, "A": A, "forms": [F1("format")] + forms}


def judge(ck, exe, cases):
    res = engine.run_cases(exe, cases)
    for c, r in list(zip(cases, res))[:: max(1, len(cases) // 4)][:4]:
        ck.sample({"character_type": ["char", "char16_t", "char32_t", "wchar_t", "char8_t"][c["ek"]], "script": "".join(map(chr, c["s"])), "forms": [f["f"] for f in c["forms"]], "first": r[0] if isinstance(r, list) else r})
    calls = sum(len(c["forms"]) for c in cases)
    engine.judge(ck, "EntryTrace", cases, res, exe=exe, chunk=2500, describe=lambda v: {"form": v[0], "name": v[1], "n": v[2], "error": v[3], "text": v[4]})
    return calls


# ------------------------------------------------------------------ C11
def c11(ck):
    exe = hist.build.build(SRC, "entry")
    r = ck.rng
    cases = []
    # all short scripts over these pieces, in every character type, every bound
    toks = ["", "a", "é", "漢😀", "{{", "{0}", "{x}", "{2}", "{1:>4}", "{$ {3} ? 'y漢' : {x}}", "{4:m}"]
    bad = ["{", "}", "{9}", "{0:q}", "{$ {3} ? }", "{zz}"]
    A0 = eargs(r, i=-7, s="b漢", v=[1, 23], b=1, x="é😀", nn=5, u="ü")
    A1 = eargs(r, i=40, s="", v=[], b=0, x="}", nn=0, u="😀")
    for ek in range(5):
        for a, b in itertools.product(toks, toks + bad):
            A = A0 if r.random() < 0.5 else A1
            s = a + b
            if ck.thorough:
                s += r.choice(toks)
            cases.append(ecase(ek, s, A, text_forms(r, ek, 0, ck.thorough) + bound_forms(r, 22, False) + [F1(r.choice(["n_ptr", "n_back", "n_list"]), k) for k in range(13)]))
    ck.exhaustive.append("%d scripts of two pieces, in five character types, in all entry points, with all bounds up to 12" % len(cases))
    # random scripts and arguments
    want = len(cases) + n(ck, 4000, 30000)
    while len(cases) < want:
        ek = r.choice([0, 0, 1, 2, 3, 4])
        loc = int(ek in (0, 3) and r.random() < 0.3)
        g = Gen(r, w=int(ek != 0), loc=loc)
        A = eargs(r, loc=loc)
        s = g.script(A, n=r.randrange(1, 5), scripted=0.2, chains=0.15)
        if r.random() < 0.25:
            s = g.mutated(A, s)
        if ek not in (0, 3) and ("L" in s or "l" in s):
            continue
        cases.append(ecase(ek, s, A, text_forms(r, ek, loc, False) + bound_forms(r, r.choice([3, 8, 20, 60]), False)))
    # once the length is known: bounds around the end
    first = engine.run_cases(exe, [dict(c, forms=c["forms"][:1]) for c in cases])
    for c, f in zip(cases, first):
        if isinstance(f, list) and f[0]["ok"]:
            k = len(f[0]["o"])
            c["forms"] += [F1(r.choice(["n_ptr", "n_back", "n_list"]), b) for b in sorted({max(0, k - 1), k, k + 1, r.randrange(k + 1)})]
            if ck.thorough:
                c["forms"] += [F1(r.choice(["n_ptr", "n_back", "n_list"]), b) for b in range(k)]
    calls = judge(ck, exe, cases)
    ck.part("entry", scripts=len(cases), calls=calls)


# ------------------------------------------------------------------ C20
def c20(ck):
    r = ck.rng

    def job():
        return hist.explore(ck, "StyleEnum", "StyleEnum_deep" if ck.thorough else None)
    style, edges = hist.with_build(["style"], "style", job)
    exe = hist.build.build(SRC, "entry")
    cases, exps = [], []
    for i, (src, op, res, dst) in enumerate(edges):
        cases.append({"x": json.loads(src), "z": op, "how": i % 24 if not ck.thorough else r.randrange(24)})
        exps.append(res)

    def differs(x, got, c):
        q, t, rs = x
        if got["q"] == q and got["t"] == t and got["r"] == rs and got["v"] == t + [32, 65] + rs + t + [48, 120, 102, 102] + rs:
            return None
        return "expected %s got %s" % (x, got)
    hist.compare(ck, "StyleEnum", style, cases, exps, differs)
    ck.exhaustive.append("every style (attributes, foreground, background) combined with %d operands: %d combinations" % (len({hist.key(e[1]) for e in edges}), len(edges)))
    rec = []
    for _ in range(n(ck, 1500, 15000)):
        ops = []
        for _ in range(r.randint(3, 25)):
            o = r.choice(["new", "fg", "bg", "cp", "ors", "ors", "ors", "ort", "ort", "bs", "bs", "bt", "bt"])
            a, b, c = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)
            ops.append([o, a] + {"new": [r.randint(0, 4)], "fg": [r.randint(0, 8)], "bg": [r.randint(0, 8)], "cp": [b], "ors": [r.randint(0, 4)], "ort": [b], "bs": [b, r.randint(0, 4)], "bt": [b, c]}[o])
        rec.append({"ops": ops})
    record(ck, "StyleTrace", style, rec)
    # printed: every attribute set, colors in turn, scripts of all kinds
    out = []
    toks = ["", "text", "é{0}", "{x}{2}", "{{}}", "{1:>7}", "{$ {3} ? 'y' : 'n'}", "{0:q}", "{9}", "{4:m}"]
    for bits in range(16):
        for f, b in itertools.product((0, 1, 2, 5, 8), (0, 1, 7, 8)):
            ops = [["s", k + 1] for k in range(4) if bits >> k & 1] + ([["f", f]] if f else []) + ([["b", b]] if b else [])
            r.shuffle(ops)
            A = eargs(r)
            out.append(ecase(0, r.choice(toks), A, [F1("st", 0, ops), F1("stln", 0, ops)]))
            out.append(ecase(0, r.choice(["{:>6}", "{}", "{0:#x}", "{0:+08d}", "{1:*^9}", "{1:.1}", "{1:?}", "{0:{n}}", "{1:q}", "{0:c}"]), A, [F1("sty", 0, ops)]))
    for _ in range(n(ck, 1200, 12000)):
        g = Gen(r)
        A = eargs(r)
        s = g.script(A, n=r.randrange(1, 5), chains=0.15)
        if r.random() < 0.15:
            s = g.mutated(A, s)
        out.append(ecase(0, s, A, [F1(f, 0, style_ops(r)) for f in ("st", "stln", "st")]))
        k = r.randrange(2)
        sp = g.spec(A["pos"][k], A, None)
        if "%" not in sp:
            out.append(ecase(0, "{%d:%s}" % (k, sp), A, [F1("sty", 0, style_ops(r)) for _ in range(3)]))
    calls = judge(ck, exe, out)
    ck.part("printed", cases=len(out), calls=calls)
