"""What the checks of the data structures explore"""
import json
from . import engine, hist
from .engine import dumps


def n(ck, quick, thorough):
    return thorough if ck.thorough else quick


# ------------------------------------------------------------------ C17
def vec_ops(r, length):
    """a random legal history of three small vectors (sizes tracked)"""
    size = [None] * 3
    ops = []
    L = lambda: [r.randrange(0, 6) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8]))]
    while len(ops) < length:
        a = r.randrange(3)
        b = r.randrange(3)
        k = size[a]
        if k is None:
            o = r.choice(["new", "newv", "newl", "copy", "move"])
            if o == "new":
                ops.append([o, a + 1]); size[a] = 0
            elif o in ("newv", "newl"):
                l = L(); ops.append([o, a + 1, l]); size[a] = len(l)
            elif a != b and size[b] is not None:
                ops.append([o, a + 1, b + 1]); size[a] = size[b]
                if o == "move":
                    size[b] = 0
            continue
        o = r.choice(["del", "cas", "mas", "swap", "swap", "asgo", "asgv", "asgl", "app", "appl", "push", "push", "push", "emb", "emb", "pushs", "pushs", "embs", "ins", "ins", "emp", "emp", "inss", "inss", "pop", "pop", "clear", "rs", "rsv", "rss", "res", "fit", "fit", "at"])
        if o == "del":
            if r.random() < 0.5:
                continue
            ops.append([o, a + 1]); size[a] = None
        elif o in ("cas", "mas", "swap", "asgo"):
            if size[b] is None or (a == b and o in ("mas", "asgo")):
                continue
            ops.append([o, a + 1, b + 1])
            if o == "swap":
                size[a], size[b] = size[b], size[a]
            else:
                size[a] = size[b]
                if o == "mas":
                    size[b] = 0
        elif o in ("asgv", "asgl"):
            l = L(); ops.append([o, a + 1, l]); size[a] = len(l)
        elif o in ("app", "appl"):
            l = L(); ops.append([o, a + 1, l]); size[a] += len(l)
        elif o in ("push", "emb"):
            ops.append([o, a + 1, r.randrange(6)]); size[a] += 1
        elif o in ("pushs", "embs"):
            if k:
                ops.append([o, a + 1, r.randrange(k)]); size[a] += 1
        elif o in ("ins", "emp"):
            ops.append([o, a + 1, r.randint(0, k), r.randrange(6)]); size[a] += 1
        elif o == "inss":
            if k:
                ops.append([o, a + 1, r.randint(0, k), r.randrange(k)]); size[a] += 1
        elif o == "pop":
            if k:
                ops.append([o, a + 1]); size[a] -= 1
        elif o in ("clear", "fit"):
            if o == "clear" and r.random() < 0.6:
                continue
            ops.append([o, a + 1])
            if o == "clear":
                size[a] = 0
        elif o in ("rs", "rsv", "rss"):
            m = r.randrange(0, 10)
            if o == "rs":
                ops.append([o, a + 1, m])
            elif o == "rsv":
                ops.append([o, a + 1, m, r.randrange(6)])
            elif k:
                ops.append([o, a + 1, m, r.randrange(k)])
            else:
                continue
            size[a] = m
        elif o == "res":
            ops.append([o, a + 1, r.randrange(0, 14)])
        elif o == "at":
            ops.append([o, a + 1, r.randrange(0, k + 2)])
    return ops


def c17(ck):
    exe, edges = hist.with_build(["vec"], "vec", lambda: hist.explore(ck, "VecEnum"))
    g = hist.Graph(edges, [[-1], [-1]])
    cases, exps = [], []
    kinds = [(C, ek) for C in (1, 2, 4) for ek in (0, 1, 2, 3)]
    for rnd in range(n(ck, 1, 6)):
        for i, w in enumerate(g.walks(ck.rng, 40)):
            C, ek = kinds[(i + 5 * rnd) % len(kinds)]
            cases.append({"C": C, "ek": ek, "ops": [edges[e][1] for e in w]})
            exps.append([[edges[e][2]["e"], edges[e][2]["x"], edges[e][3]] for e in w])
    slot = lambda s: s["v"] if s["a"] else [-1]
    step = hist.first_difference(lambda o: [o["e"], o["x"], hist.key([slot(s) for s in o["p"][:2]])])

    def differs(x, got, c):
        d = step(x, got, c)
        if not d and got[-1]["end"] != [0, 0]:
            d = "elements and blocks left at the end: %s" % got[-1]["end"]
        return d
    hist.compare(ck, "VecEnum", exe, cases, exps, differs)
    ck.exhaustive.append("every call on every pool of 2 small vectors of up to 3 elements (%d steps, in %d histories)" % (len(edges), len(cases)))
    # recorded histories, with and without failing constructors
    rec = []
    for i in range(n(ck, 1500, 15000)):
        C, ek = kinds[i % len(kinds)]
        ops = vec_ops(ck.rng, ck.rng.randint(10, 40))
        f = [ck.rng.choice([0, 0, 1, 2, 3, 5, 8]) if ek < 2 and i % 3 == 0 else 0 for _ in ops]
        rec.append({"C": C, "ek": ek, "ops": ops, "f": f})
    # every step of the specification from a small pool with every construction failing
    for w in g.walks(ck.rng, 1)[:n(ck, 4000, 40000)] if True else []:
        if len(w) > 7:
            continue
        C, ek = kinds[ck.rng.randrange(len(kinds)) // 4 * 4 + ck.rng.randrange(2)]
        ops = [edges[e][1] for e in w]
        rec.append({"C": C, "ek": ek, "ops": ops, "f": [0] * (len(ops) - 1) + [ck.rng.randint(1, 4)]})
    record(ck, "VecTrace", exe, rec)


def record(ck, module, exe, rec):
    res = engine.run_cases(exe, rec)
    for c, r in zip(rec, res):
        for op in c["ops"]:
            ck.acts([op[0]])
    # after a failed call a later one may not be possible any more: cut there
    for c, r in zip(rec[:2], res[:2]):
        ck.sample({"history": c["ops"][:6], "seen": r[:2] if isinstance(r, list) else r})
    engine.judge(ck, module, rec, res, exe=exe)


# ------------------------------------------------------------------ C18
def fix_ops(r, length, K, part):
    ops = []
    while len(ops) < length:
        a, b = r.randint(1, 2), r.randint(1, 2)
        if part == "v":
            o = r.choice(["new", "newn", "copy", "move", "del", "push", "push", "push", "emb", "emb", "pushs", "ins", "ins", "ins", "emp", "emp", "inss", "inss", "pop", "pop", "clear", "at"])
            if o in ("del", "clear") and r.random() < 0.6:
                continue
            ops.append([o, a] + {"newn": [r.randint(0, K + 1), r.randrange(9)], "copy": [b], "move": [b], "push": [r.randrange(9)], "emb": [r.randrange(9)], "pushs": [r.randrange(K)],
                                 "ins": [r.randint(0, K), r.randrange(9)], "emp": [r.randint(0, K), r.randrange(9)], "inss": [r.randint(0, K), r.randrange(K)], "at": [r.randint(0, K + 1)]}.get(o, []))
        else:
            o = r.choice(["mnew", "mcopy", "mmove", "mdel"] + ["ioa", "te"] * 5 + ["find", "mat", "has", "lb"] * 3)
            if o == "mdel" and r.random() < 0.7:
                continue
            ops.append([o, a] + {"mcopy": [b], "mmove": [b], "ioa": [r.randrange(10), r.randrange(9)], "te": [r.randrange(10), r.randrange(9)]}.get(o, [] if o in ("mnew", "mdel") else [r.randrange(10)]))
    return ops


def fix_legal(ops, K):
    """keeps the calls that are possible (as in PapFix.Legal)"""
    v = {1: None, 2: None}
    m = {1: None, 2: None}
    out = []
    for op in ops:
        o, a = op[0], op[1]
        if o in ("new", "newn", "copy", "move"):
            if v[a] is not None:
                continue
            if o in ("copy", "move"):
                if op[2] == a or v[op[2]] is None or v[op[2]] == "u":
                    continue
                v[a] = v[op[2]]
                if o == "move":
                    v[op[2]] = "u"
            elif o == "newn":
                v[a] = op[2] if op[2] <= K else None
            else:
                v[a] = 0
        elif o in ("mnew", "mcopy", "mmove", "mdel", "ioa", "te", "find", "mat", "has", "lb"):
            if o == "mnew":
                if m[a]:
                    continue
                m[a] = "y"
            elif o in ("mcopy", "mmove"):
                if m[a] or op[2] == a or m[op[2]] != "y":
                    continue
                m[a] = "y"
                if o == "mmove":
                    m[op[2]] = "u"
            elif o == "mdel":
                if not m[a]:
                    continue
                m[a] = None
            elif m[a] != "y":
                continue
        else:
            if v[a] is None or (v[a] == "u" and o not in ("del", "clear")):
                continue
            if o == "del":
                v[a] = None
            elif o == "clear":
                v[a] = 0
            elif o == "pop":
                if not v[a]:
                    continue
                v[a] -= 1
            elif o == "at":
                pass
            else:
                if o in ("pushs",) and op[2] >= v[a]:
                    continue
                if o in ("ins", "emp", "inss") and op[2] > v[a]:
                    continue
                if o == "inss" and op[3] >= v[a]:
                    continue
                if v[a] < K:
                    v[a] += 1
        out.append(op)
    return out


def c18(ck):
    def job():
        return [(p, K, g, hist.explore(ck, "FixEnum", "FixEnum_%s%d%d" % (p, K, g))) for p, K, g in (("v", 3, 0), ("m", 2, 0), ("m", 2, 1)) + ((("m", 3, 0), ("m", 3, 1)) if ck.thorough else ())]
    exe, parts = hist.with_build(["fix"], "fix", job)
    for part, K, G, edges in parts:
        g = hist.Graph(edges, [[-1], [-1]])
        cases, exps = [], []
        for rnd in range(n(ck, 2, 8)):
            for i, w in enumerate(g.walks(ck.rng, 60)):
                cases.append({"K": K, "G": G, "Tr": (i // 4) % 2, "ek": (i + rnd) % 4, "ops": [edges[e][1] for e in w]})
                exps.append([[edges[e][2]["e"], edges[e][2]["x"], edges[e][3]] for e in w])
        key = "v" if part == "v" else "m"

        def differs(x, got, c):
            for k, (e, o) in enumerate(zip(x, got)):
                want = json.loads(e[2])
                seen = [s["v"] if s["a"] else [-1] for s in o[key]]
                if [o["e"], o["x"]] != e[:2] or any(b != [-2] and a != b for a, b in zip(seen, want)):
                    return "step %d %s: expected %s got %s" % (k + 1, c["ops"][k], e, [o["e"], o["x"], seen])
            return None if got[-1]["end"] == 0 else "elements left: %d" % got[-1]["end"]
        hist.compare(ck, "FixEnum", exe, cases, exps, differs)
        ck.exhaustive.append("every call on every pool of 2 fixed %s of capacity %d (%d steps, in %d histories)" % ("vectors" if part == "v" else "flat maps", K, len(edges), len(cases)))
    rec = []
    for i in range(n(ck, 2400, 20000)):
        K = ck.rng.choice([1, 2, 3, 8])
        part = "vm"[i % 2]
        ek = (i // 2) % 4
        ops = fix_legal(fix_ops(ck.rng, ck.rng.randint(20, 60), K, part), K)
        if not ops:
            continue
        G = ck.rng.randrange(2) if K != 1 else 0
        f = [ck.rng.choice([0, 0, 1, 2, 3, 5]) if ek < 2 and i % 3 == 0 else 0 for _ in ops]
        rec.append({"K": K, "G": G, "Tr": ck.rng.randrange(2), "ek": ek, "dc": int(ek < 2), "ops": ops, "f": f})
    record(ck, "FixTrace", exe, rec)


# ------------------------------------------------------------------ C19
def ptr_ops(r, length, Z):
    alive, gone = [False] * 3, [False] * 3
    ops = []
    while len(ops) < length:
        a, b = r.randrange(3), r.randrange(3)
        if not alive[a]:
            o = r.choice(["new", "null", "own", "own", "ind", "view", "up", "up", "upn", "copy", "copy", "move", "move"])
            if o in ("copy", "move"):
                if not alive[b]:
                    continue
                ops.append([o, a + 1, b + 1])
                gone[a] = gone[b]
                if o == "move":
                    gone[b] = True
            else:
                ops.append([o, a + 1] + ([0 if Z else r.randrange(4)] if o in ("up", "upn") else []))
                gone[a] = False
            alive[a] = True
            continue
        o = r.choice(["del", "cas", "cas", "mas", "mas", "swap", "swap", "r", "rn", "rno", "rupn", "ro", "ri", "rv", "rup", "rel", "sd", "gc"])
        if o in ("cas", "mas", "swap"):
            if not alive[b]:
                continue
            ops.append([o, a + 1, b + 1])
            if o == "swap":
                gone[a], gone[b] = gone[b], gone[a]
            elif a != b:
                gone[a] = gone[b]
                if o == "mas":
                    gone[b] = True
        elif o == "gc":
            ops.append([o, 1])
        else:
            if o in ("ro", "ri") and gone[a] and not Z:
                continue
            if o == "sd" and Z:
                continue
            ops.append([o, a + 1] + ([0 if Z else r.randrange(4)] if o in ("rup", "sd") else []))
            if o == "del":
                alive[a] = False
            if o in ("rup", "sd"):
                gone[a] = False
    return ops


def c19(ck):
    def job():
        return [(z, hist.explore(ck, "PtrEnum", "PtrEnum_%d" % z)) for z in (0, 1)]
    exe, parts = hist.with_build(["ptr"], "ptr", job)
    for Z, edges in parts:
        NS = 3 if Z else 2
        g = hist.Graph(edges, [[{"a": 0, "d": 0, "p": 0, "own": 0}] * NS, [0, 0, 0]])
        cases, exps = [], []
        for rnd in range(n(ck, 3 if not Z else 2, 12)):
            for i, w in enumerate(g.walks(ck.rng, 50)):
                cases.append({"NS": NS, "M": 3, "ek": ((i + rnd) % 3) if not Z else 3 + (i + rnd) % 2, "ops": [edges[e][1] for e in w]})
                exps.append([(edges[e][2], edges[e][3]) for e in w])

        def differs(x, got, c):
            for k, ((f, dst), o) in enumerate(zip(x, got)):
                sl, ob = json.loads(dst)
                ok = o["x"] == 0 and sorted(o["f"]) == sorted(f) and o["l"] == [q + 1 for q in range(3) if ob[q]]
                for p, q in zip(sl, o["s"]):
                    ok = ok and p["a"] == q["a"] and p["p"] == q["p"] and p["own"] == q["own"] and (not p["a"] or Z or p["d"] in (-1, q["d"]))
                if not ok:
                    return "step %d %s: expected %s got %s" % (k + 1, c["ops"][k], [f, sl, ob], o)
            return None if got[-1]["end"] == 0 else "objects left: %d" % got[-1]["end"]
        hist.compare(ck, "PtrEnum", exe, cases, exps, differs)
        ck.exhaustive.append("every call on every pool of %d pointers to 3 objects (%d steps, in %d histories)" % (NS, len(edges), len(cases)))
    rec = []
    for i in range(n(ck, 3000, 25000)):
        ek = i % 5
        Z = int(ek > 2)
        rec.append({"NS": 3, "M": 6, "ek": ek, "Z": Z, "ops": ptr_ops(ck.rng, ck.rng.randint(10, 50), Z)})
    record(ck, "PtrTrace", exe, rec)


# ------------------------------------------------------------------ C16
def str_ops(r, length, NB):
    a = lambda: r.randint(1, 3)
    sym = lambda: r.randrange(8)
    txt = lambda: [sym() for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 13]))]
    ops = []
    for _ in range(length):
        o = r.choice(["ext", "new", "vw", "vw", "vw", "ind", "str", "rep", "repc", "it", "cpy", "cpy", "icpy", "mv", "mv", "sub", "sub", "av", "av", "ai", "as", "ar", "arc", "agr", "ca", "ca", "ma", "ma",
                      "del", "del", "del", "own", "cs", "st", "cmp", "cmp", "sw", "sw", "pb", "pb", "pb", "pbc", "clr", "mstr", "rp", "rp", "rpr", "rpi", "rpx", "ro", "rd", "ais"])
        if o == "ext":
            ops.append([o, r.randint(1, NB)])
        elif o in ("vw", "ind", "av", "ai"):
            lo = r.randint(0, 4)
            ops.append([o, a(), r.randint(1, NB), lo, r.randint(lo, 5)])
        elif o in ("str", "it", "as", "agr", "ro", "rd"):
            ops.append([o, a(), txt()])
        elif o in ("rep", "ar"):
            ops.append([o, a(), r.choice([0, 1, 2, 5, 9]), sym()])
        elif o in ("repc", "arc"):
            ops.append([o, a(), r.choice([0, 1, 2, 5, 30]), r.randrange(2)])
        elif o in ("cpy", "icpy", "mv", "ca", "ma", "sw", "cmp"):
            ops.append([o, a(), a()])
        elif o == "sub":
            ops.append([o, a(), a(), r.randint(0, 4), r.randint(0, 5)])
        elif o == "pb":
            ops.append([o, a(), sym()])
        elif o == "pbc":
            ops.append([o, a(), r.randrange(2)])
        elif o in ("rp", "rpr", "rpi"):
            ops.append([o, a(), r.randrange(5), sym()])
        elif o == "rpx":
            ops.append([o, a(), r.randrange(5), r.randrange(5)])
        elif o == "ais":
            lo = r.randint(0, 3)
            ops.append([o, a(), lo, r.randint(lo, 6)])
        else:
            ops.append([o, a()])
    return ops


def c16(ck):
    def job():
        return hist.explore(ck, "StrEnum", "StrEnum_deep" if ck.thorough else "StrEnum")
    exe, edges = hist.with_build(["str"], "str", job)
    dead = {"a": 0, "own": 0, "t": [], "s": 0, "lo": 0, "hi": 0}
    g = hist.Graph(edges, [[dead, dead], [[2, 6]]])
    cases, exps = [], []
    for i, w in enumerate(g.walks(ck.rng, 80)):
        cases.append({"NS": 2, "B": [[2, 6]], "h": i, "ek": i % 5, "ops": [edges[e][1] for e in w]})
        exps.append([(edges[e][2], edges[e][3]) for e in w])

    def differs(x, got, c):
        for k, ((res, dst), o) in enumerate(zip(x, got)):
            cs, bs = json.loads(dst)
            ok = o["x"] == 0 and o["e"] == res[0] and o["b"] == bs
            for p, t, q in zip(cs, res[1], o["c"]):
                ok = ok and p["a"] == q["a"] and (not p["a"] or p["own"] == -1 or (p["own"] == q["own"] and t == q["t"]))
            if not ok:
                return "step %d %s: expected %s got %s" % (k + 1, c["ops"][k], [res, cs, bs], o)
        return None
    hist.compare(ck, "StrEnum", exe, cases, exps, differs)
    ck.exhaustive.append("every call on every pool of 2 containers of up to 2 code points and an outside text (%d steps, in %d histories over 5 encodings)" % (len(edges), len(cases)))
    rec = []
    for i in range(n(ck, 4000, 30000)):
        NB = 2
        rec.append({"NS": 3, "B": [[ck.rng.randrange(8) for _ in range(ck.rng.randint(1, 5))] for _ in range(NB)], "h": i, "ek": i % 5, "ops": str_ops(ck.rng, ck.rng.randint(15, 80), NB)})
    record(ck, "StrTrace", exe, rec)


# ------------------------------------------------------------------ C15
ENC = {0: 1, 4: 1, 1: 2, 2: 3, 3: 3}
NPOS = 99


def view_ops(r, length):
    sym = lambda: r.randrange(8)
    txt = lambda m: [sym() for _ in range(r.choice(m))]
    ops, t = [], []
    pos = lambda: r.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 11, 20])
    bound = lambda: r.choice([NPOS, -21, -12, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 9, 15])
    # needles: mostly pieces of the text
    def needle():
        if t and r.random() < 0.7:
            a = r.randrange(len(t))
            return t[a:a + r.choice([0, 1, 1, 2, 2, 3, 5, 20])]
        return txt([0, 1, 1, 2, 3])
    while len(ops) < length:
        if not ops or r.random() < 0.1:
            two = [sym(), sym()]
            t = txt([0, 1, 2, 4, 6, 9, 14, 20]) if r.random() < 0.6 else [r.choice(two) for _ in range(r.randint(2, 14))]
            ops.append(["set", t])
            continue
        o = r.choice(["rp", "rs", "asg", "subx", "subs", "sublx", "subls", "len", "size", "off", "off", "roff", "roff", "at", "at", "rat", "rat", "or", "ror", "fwd", "bwd", "conv", "nth", "findc", "findc", "find", "find", "find", "hasc", "has", "has", "sw", "ew", "swc", "ewc", "cmp", "cmp"])
        if o in ("rp", "rs"):
            ops.append([o, r.choice([0, 1, 1, 2, 3, 30])])
        elif o in ("off", "roff", "at", "rat"):
            ops.append([o, pos()])
        elif o in ("asg", "nth"):
            ops.append([o, pos(), pos()])
        elif o in ("subx", "subs"):
            ops.append([o, r.choice([0, 0, 0, 1, 1, 2, 3, 9]), r.choice([NPOS, NPOS, 0, 1, 3, 5, 9, 15])])
        elif o in ("sublx", "subls"):
            a = bound()
            ops.append([o, 0 if a == NPOS else a, bound()])
        elif o in ("or", "ror"):
            ops.append([o, pos(), sym()])
        elif o == "findc":
            ops.append([o, r.choice(t) if t and r.random() < 0.7 else sym(), pos()])
        elif o == "find":
            ops.append([o, needle(), pos()])
        elif o in ("hasc", "swc", "ewc"):
            ops.append([o, r.choice(t) if t and r.random() < 0.6 else sym()])
        elif o in ("has", "sw", "ew", "cmp"):
            ops.append([o, needle() if r.random() < 0.7 else list(t)])
        else:
            ops.append([o])
    return ops


def c15(ck):
    def job():
        return hist.explore(ck, "ViewEnum", "ViewEnum_deep" if ck.thorough else "ViewEnum")
    exe, edges = hist.with_build(["view"], "view", job)
    g = hist.Graph(edges, {"t": [], "lo": 0, "hi": 0})
    cases, exps = [], []
    for rnd in range(n(ck, 1, 5)):
        for i, w in enumerate(g.walks(ck.rng, 60)):
            cases.append({"h": i + rnd, "ek": (i + rnd) % 5, "ops": [edges[e][1] for e in w]})
            exps.append([(edges[e][2][ENC[(i + rnd) % 5] - 1], edges[e][2][3]) for e in w])

    def differs(x, got, c):
        for k, ((e, w), o) in enumerate(zip(x, got)):
            if o["x"] or o["e"] != e or o["w"] != w:
                return "step %d %s: expected %s got %s" % (k + 1, c["ops"][k], [e, w], o)
        return None
    hist.compare(ck, "ViewEnum", exe, cases, exps, differs)
    ck.exhaustive.append("every question and slice of every window of every text of up to 3 code points (%d steps, in %d histories over 5 encodings)" % (len(edges), len(cases)))
    rec = []
    for i in range(n(ck, 4000, 40000)):
        rec.append({"enc": ENC[i % 5], "h": i, "ek": i % 5, "ops": view_ops(ck.rng, ck.rng.randint(15, 60))})
    record(ck, "ViewTrace", exe, rec)


# ------------------------------------------------------------------ C22
def num(x):
    """a rational number with a power of two below as the specification's number"""
    from fractions import Fraction
    x = Fraction(x)
    if x == 0:
        return {"s": 0, "m": [], "e": 0}
    s, x = int(x < 0), abs(x)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    m = x.numerator
    d = [int(c) for c in bin(m)[2:]]
    e = len(d) - (x.denominator.bit_length() - 1)
    while not d[-1]:
        d.pop()
    return {"s": s, "m": d, "e": e}


def val(n):
    from fractions import Fraction
    if n["e"] == 999:
        return None
    v = Fraction(int("".join(map(str, n["m"])) or "0", 2)) * Fraction(2) ** (n["e"] - len(n["m"]))
    return -v if n["s"] else v


INTS = {"i8": (-2 ** 7, 2 ** 7), "u8": (0, 2 ** 8), "i16": (-2 ** 15, 2 ** 15), "u16": (0, 2 ** 16), "i32": (-2 ** 31, 2 ** 31), "u32": (0, 2 ** 32), "i64": (-2 ** 63, 2 ** 63), "u64": (0, 2 ** 64)}


def var_value(r):
    from fractions import Fraction
    k = r.choice("biiiffffttt")
    v = {"k": k, "n": num(0), "t": [], "own": 1}
    if k == "b":
        v["n"] = num(r.randrange(2))
    elif k == "i":
        b = r.choice([0, 1, 2, 7, 8, 15, 16, 23, 24, 25, 31, 32, 40, 53, 62, 63])
        x = r.choice([2 ** b - 1, 2 ** b, 2 ** b + 1, r.getrandbits(b + 1), r.randrange(4)]) * r.choice([1, -1])
        v["n"] = num(max(-2 ** 63, min(2 ** 63 - 1, x)))
    elif k == "f":
        c = r.randrange(12)
        if c == 0:
            v["n"] = {"s": r.randrange(2), "m": [1], "e": 999}
            return v
        m = r.choice([1, 3, 2 ** 24 - 1, 2 ** 23 + 1, 2 ** 24 + r.randrange(8), 2 ** 25 + r.randrange(32), r.getrandbits(24), r.getrandbits(53), r.randrange(1, 600)])
        e = r.choice([0, 0, -1, -2, -23, -24, -22, -25, -46, -8, 10, 40, 60, r.randint(-70, 70)])
        if c == 1:
            m, e = r.getrandbits(23), r.choice([-149, 104])
        v["n"] = num(Fraction(m) * Fraction(2) ** e * r.choice([1, -1]))
    else:
        v["t"] = [r.randrange(8) for _ in range(r.choice([0, 1, 1, 2, 3, 9, 20]))]
        v["own"] = r.randrange(2)
    return v


def var_ops(r, length):
    st = [{"k": "n", "at": 0} for _ in range(3)]
    ops = []
    viewed = lambda a: any(j != a and x["at"] == a + 1 for j, x in enumerate(st))
    known = lambda a: st[a]["k"] not in "nu"
    last = None
    while len(ops) < length:
        a, b = r.randrange(3), r.randrange(3)
        o = r.choice(["put"] * 6 + ["del", "cpy", "cas", "mv", "mas", "swap"] + ["as"] * 6 + ["get"] * 2 + ["cmp", "eq"] * 5 + ["eqe"])
        if o == "put":
            if viewed(a):
                continue
            v = var_value(r)
            if last and r.random() < 0.5:  # near the last one
                v = json.loads(json.dumps(last))
                if v["k"] in "if" and v["n"]["e"] != 999:
                    x = val(v["n"])
                    if r.random() < 0.6:
                        v["k"] = r.choice("iff")
                    x += r.choice([0, 0, 1, -1]) * (1 if v["k"] == "i" else r.choice([1, 2 ** -23, 2 ** -24, abs(x) * 2 ** -24]))
                    x = x if r.random() < 0.8 else -x
                    if v["k"] == "i":
                        x = max(-2 ** 63, min(2 ** 63 - 1, int(x)))
                    if len(num(x)["m"]) > 53:
                        continue
                    v["n"] = num(x)
            if v["k"] == "f":
                # what a float can hold after rounding
                if v["n"]["m"] and v["n"]["e"] != 999 and not (-125 <= v["n"]["e"] <= 127 or (len(v["n"]["m"]) <= 24 and v["n"]["e"] - len(v["n"]["m"]) >= -149 and v["n"]["e"] <= 128)):
                    continue
            last = v
            ops.append([o, a + 1, v])
            st[a] = {"k": v["k"], "at": 0, "n": v["n"]}
            continue
        if o == "del":
            if st[a]["k"] == "n" or viewed(a) or r.random() < 0.5:
                continue
            ops.append([o, a + 1])
            st[a] = {"k": "n", "at": 0}
        elif o in ("cpy", "cas", "mv", "mas"):
            if not known(b) or viewed(a) or (o in ("mv", "mas") and (viewed(b) or a == b)) or (o in ("cpy", "mv")) != (st[a]["k"] == "n") or st[b]["at"] == a + 1:
                continue
            ops.append([o, a + 1, b + 1])
            if a != b:
                st[a] = dict(st[b])
                if o in ("cpy", "cas") and st[b]["k"] == "t":
                    st[a]["at"] = b + 1
                if o in ("mv", "mas"):
                    st[b] = {"k": "u", "at": 0}
        elif o == "swap":
            if not known(a) or not known(b) or a == b or viewed(a) or viewed(b):
                continue
            ops.append([o, a + 1, b + 1])
            st[a], st[b] = st[b], st[a]
        elif o == "as":
            if not known(a):
                continue
            t = r.choice(list(INTS) * 2 + ["f32", "f64", "bool", "cont", "view", "str", "ref"])
            if st[a]["k"] == "f" and t in INTS:
                x = val(st[a]["n"])
                if x is None:
                    continue
                m = st[a]["n"]["m"]
                if len(m) > 24:  # as it was stored
                    import struct
                    x = int(struct.unpack("f", struct.pack("f", float(x)))[0])
                else:
                    x = int(x)
                if not INTS[t][0] <= x < INTS[t][1]:
                    continue
            ops.append([o, a + 1, t])
        elif known(a) and (o == "get" or known(b)):
            ops.append([o, a + 1, r.choice("bift") if o == "get" else b + 1] + ([num(r.choice([0, 1, 2, 0.5, 2 ** -23, 2 ** -22, 2 ** -24]))] if o == "eqe" else []))
    return ops


def c22(ck):
    exe, edges = hist.with_build(["var"], "var", lambda: hist.explore(ck, "VarEnum", "VarEnum_deep" if ck.thorough else "VarEnum"))
    dead = {"k": "n", "n": {"s": 0, "m": [], "e": 0}, "t": [], "own": 1, "at": 0}
    g = hist.Graph(edges, [dead, dead])
    cases, exps = [], []
    for rnd in range(n(ck, 3, 10)):
        for i, w in enumerate(g.walks(ck.rng, 80)):
            cases.append({"NS": 2, "h": i + rnd * 11, "ek": (i + rnd) % 5, "ops": [edges[e][1] for e in w]})
            exps.append([edges[e][2] for e in w])

    def differs(x, got, c):
        for k, ((e, p), o) in enumerate(zip(x, got)):
            ok = o["e"] == e
            for want, seen in zip(p, o["p"]):
                ok = ok and (want[0] in "nu" or (want[:2] == seen[:2] and want[2] in (-1, seen[2])))
            if not ok:
                return "step %d %s: expected %s got %s" % (k + 1, c["ops"][k], [e, p], o)
        return None
    hist.compare(ck, "VarEnum", exe, cases, exps, differs)
    ck.exhaustive.append("every pair of script variables of the listed values, every conversion and comparison, every way of copying and moving (%d steps, in %d histories)" % (len(edges), len(cases)))
    rec = []
    for i in range(n(ck, 2500, 25000)):
        rec.append({"NS": 3, "h": i, "ek": i % 5, "ops": var_ops(ck.rng, ck.rng.randint(20, 60))})
    record(ck, "VarTrace", exe, rec)


# ------------------------------------------------------------------ C12
def args_ops(r, length, wide):
    """a random history of three collections; impossible calls are skipped by
    the harness and by the specification alike"""
    NNMS = 4
    item = lambda: [r.choice([0, 0, 0] + list(range(1, NNMS + 1))), r.randint(1, 9)]
    ops = []
    a = [0] * 4  # what is in a slot, roughly
    while len(ops) < length:
        s = r.randint(1, 3)
        if a[s] == 0:
            o = r.choice(["new", "newv", "newv", "st", "st", "ref", "ref", "cp", "dmv", "smv"])
        else:
            o = r.choice(["emp"] * 4 + ["app"] * 3 + (["clr"] if r.random() < 0.3 else []) + (["del"] if r.random() < 0.5 else []))
        L = lambda: [item() for _ in range(r.randint(1, 2 if wide else 3))]
        if o in ("newv", "app"):
            ops.append([o, s, L()])
        elif o == "st":
            ops.append([o, s, L() if r.random() < 0.9 else []])
        elif o == "emp":
            ops.append([o, s, item()])
        elif o == "ref":
            ops.append([o, s, r.randint(1, 3), r.randint(0, 1)])
        elif o in ("cp", "dmv", "smv"):
            ops.append([o, s, r.randint(1, 3)])
        else:
            ops.append([o, s])
        t = ops[-1][2] if o in ("ref", "cp", "dmv", "smv") else s
        if o in ("new", "newv"):
            a[s] = 1
        elif o == "st":
            a[s] = 2
        elif o in ("ref", "cp", "dmv", "smv") and t != s and a[t]:
            a[s] = 3 if o == "ref" else a[t]
        elif o == "del":
            a[s] = 0
    return ops


ARGS_NS = {"dyn": (2, 2), "st": (3, 2), "mv": (3, 1), "ref": (3, 1)}


def c12(ck):
    def job():
        return [(c, hist.explore(ck, "ArgsEnum", "ArgsEnum_" + c)) for c in ("dyn", "st", "mv", "ref")]
    exe, parts = hist.with_build(["args_n", "args_w", "args_main"], "args", job)
    total = 0
    for c, edges in parts:
        NS, NNM = ARGS_NS[c]
        g = hist.Graph(edges, [{"a": 0, "x": [], "n": [0] * NNM, "to": 0}] * NS)
        cases, exps = [], []
        for rnd in range(n(ck, 1 if c == "mv" else 2, 8)):
            for i, w in enumerate(g.walks(ck.rng, 40)):
                wide = (i + rnd) % 3 == 0 and c != "st"
                cases.append({"NS": NS, "NN": NNM, "w": int(wide), "h": i + rnd, "tm": [ck.rng.randint(1, 8) for _ in range(3)], "ops": [edges[e][1] for e in w]})
                exps.append([edges[e][2] for e in w])

        def differs(x, got, case):
            for k, (want, o) in enumerate(zip(x, got)):
                ok = o["x"] == 0
                for p, q in zip(want, o["s"]):
                    ok = ok and p["a"] == q["a"] and (not p["a"] or (q["ok"] == 1 and all(p[f] == q[f] for f in ("sz", "ns", "gi", "gn"))))
                if not ok:
                    return "step %d %s: expected %s got %s" % (k + 1, case["ops"][k], dumps(want), dumps(o))
            return None
        hist.compare(ck, "ArgsEnum", exe, cases, exps, differs)
        total += len(edges)
    ck.exhaustive.append("every call on the listed pools of collections: additions of up to 2 items, static collections of up to 3, copies, moves, references (%d steps)" % total)
    rec = []
    for i in range(n(ck, 1500, 20000)):
        wide = i % 3 == 0
        rec.append({"NS": 3, "NN": 4, "w": int(wide), "h": i, "tm": [ck.rng.randint(1, 8) for _ in range(9)], "ops": args_ops(ck.rng, ck.rng.randint(10, 40), wide)})
    record(ck, "ArgsTrace", exe, rec)


# ------------------------------------------------------------------ C13
ARG_KINDS = ["bool", "cp", "int", "uint", "ll", "ull", "flt", "dbl", "ld", "ptr", "sv", "so", "soo", "edge", "big", "bigi", "thr", "thri", "span", "ti"]


def arg_ops(r, length):
    """a random history of four arguments in which none outlives what it
    refers to"""
    NS = 4
    dead = {"a": 0, "k": "mono", "o": 0, "d": frozenset()}
    st = [dict(dead) for _ in range(NS)]
    fresh = [0]

    def new_object():
        fresh[0] += 1
        return fresh[0]

    def made(k):
        return {"a": 1, "k": k, "o": new_object() if k in ("so", "bigi", "thri") else 0, "d": frozenset()}

    def copied(x):
        return dict(x, o=0, d=x["d"] | ({x["o"]} - {0}))
    kinds = r.sample(ARG_KINDS, 8) + ["so", "bigi", "soo", "sv"]
    ops = []
    while len(ops) < length:
        s, t = r.randrange(NS), r.randrange(NS)
        nx = [dict(x) for x in st]
        if not st[s]["a"]:
            o = r.choice(["new", "mk", "mk", "mk", "mk", "mkx", "cp", "cp", "mv"])
        else:
            o = r.choice(["asg", "asg", "cas", "cas", "cas", "mas", "mas", "swap", "swap", "fmt", "del"])
        op = [o, s + 1]
        if o in ("mk", "asg"):
            k, v = r.choice(kinds), r.randint(1, 2)
            op += [k, v]
            nx[s] = made(k)
        elif o in ("cp", "mv", "cas", "mas", "swap"):
            if not st[t]["a"] or (o in ("cp", "mv") and s == t):
                continue
            op += [t + 1]
            still = lambda q: not (st[q]["k"] in ("sv", "so") and st[q]["o"] and any(st[q]["o"] in x["d"] for x in st))
            if o in ("mv", "mas", "swap") and not (still(t) and (o != "swap" or still(s))):
                continue
            if s != t:
                if o in ("cp", "cas"):
                    nx[s] = copied(st[t])
                    if o == "cas" and st[t]["k"] in ("sv", "so"):
                        nx[s]["o"] = new_object()
                else:
                    nx[s] = dict(st[t])
                    nx[t] = dict(st[s]) if o == "swap" else dict(dead, a=1)
        elif o == "new":
            nx[s] = dict(dead, a=1)
        elif o == "del":
            nx[s] = dict(dead)
        objects = {x["o"] for x in nx}
        if all(x["d"] <= objects for x in nx):
            st = nx
            ops.append(op)
    return ops


def c13(ck):
    def job():
        return [(c, NS, hist.explore(ck, "ArgEnum", "ArgEnum_" + c)) for c, NS in (("two", 2), ("deep" if ck.thorough else "three", 3), ("vals", 2))]
    exe, parts = hist.with_build(["argval_n", "argval_w", "argval_main"], "argval", job)
    total = 0
    for c, NS, edges in parts:
        g = hist.Graph(edges, [{"a": 0, "k": "mono", "v": 0, "own": 1, "o": 0, "d": []}] * NS)
        cases, exps = [], []
        for rnd in range(n(ck, 1, 4)):
            for i, w in enumerate(g.walks(ck.rng, 60)):
                cases.append({"NS": NS, "w": int((i + rnd) % 3 == 0), "h": i + rnd, "ops": [edges[e][1] for e in w]})
                exps.append([edges[e][2] for e in w])

        def differs(x, got, case):
            for k, (want, o) in enumerate(zip(x, got)):
                ok = o["x"] == 0 and o["l"] == want["l"]
                for p, q in zip(want["s"], o["s"]):
                    ok = ok and p["a"] == q["a"] and (not p["a"] or (q["ok"] == 1 and all(p[f] == q[f] for f in "kvgq") and p["own"] in (-1, q["own"]) and p["f"] in (-1, q["f"])))
                if not ok:
                    return "step %d %s: expected %s got %s" % (k + 1, case["ops"][k], dumps(want), dumps(o))
            return None if len(got) == len(x) else "objects left at the end"
        hist.compare(ck, "ArgEnum", exe, cases, exps, differs)
        total += len(edges)
    ck.exhaustive.append("every call on every pool of 2 arguments of every kind and of 3 arguments of selected kinds (%d steps)" % total)
    rec = []
    for i in range(n(ck, 2000, 25000)):
        rec.append({"NS": 4, "w": int(i % 3 == 0), "h": i, "ops": arg_ops(ck.rng, ck.rng.randint(15, 50))})
    record(ck, "ArgTrace", exe, rec)
