"""What the check of the Unicode encodings explores"""
from . import engine, hist

NS = -9
ENC = {"8": (0, 1), "16": (2,), "32": (3, 4)}


def agrees(x, y):
    if isinstance(x, list):
        return isinstance(y, list) and len(x) == len(y) and all(map(agrees, x, y))
    return x == NS or x == y


def differs(x, got, c):
    n = len(c["s"])
    for f in x:
        if f == "wf":
            continue
        if f == "back":
            b = got["back"]
            ok = b == x["back"] or x["back"] == [NS] and (not n) == (not b) and all(0 <= v < w for v, w in zip(b, [n] + b)) and b[-1:] in ([], [0])
        else:
            ok = agrees(x[f], got[f])
        if not ok:
            return "%s: expected %s got %s" % (f, x[f], got[f])
    if any(not -1 <= v < n for v in got["rof"]):
        return "offset outside of the text: %s" % got["rof"]
    return None


def scalar(r):
    k = r.random()
    if k < 0.25:
        return r.randrange(0x80)
    if k < 0.45:
        return r.choice([0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF])
    c = r.choice([r.randrange(0x80, 0x800), r.randrange(0x800, 0xD800), r.randrange(0xE000, 0x10000), r.randrange(0x10000, 0x110000)])
    return c


def text(r, n):
    pool = [scalar(r) for _ in range(r.randrange(1, 5))]
    return [r.choice(pool) if r.random() < 0.4 else scalar(r) for _ in range(r.randrange(n + 1))]


def utf8(c):
    if c < 0x80:
        return [c]
    if c < 0x800:
        return [0xC0 | c >> 6, 0x80 | c & 63]
    if c < 0x10000:
        return [0xE0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63]
    return [0xF0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63]


def utf16(c):
    return [c] if c < 0x10000 else [0xD800 + (c - 0x10000 >> 10), 0xDC00 + (c - 0x10000 & 0x3FF)]


def mangled(r, u, top):
    """a sequence of units damaged at a few places"""
    u = list(u)
    for _ in range(r.randrange(4)):
        k = r.randrange(len(u) + 1)
        o = r.randrange(5)
        if o == 0:
            u.insert(k, top())
        elif u and k < len(u):
            if o == 1:
                del u[k]
            elif o == 2:
                u[k] = top()
            elif o == 3:
                u = u[:k]
            else:
                u = u[k:]
    return u


def walk_ops(r, t, length):
    n, p, m, ops = len(t), 0, 0, []
    while len(ops) < length:
        o = r.choice(["inc", "inc_", "inc", "dec", "dec_", "add", "sub", "plus", "sulp", "minus", "next", "rev", "begin", "end", "swap", "mark", "find"])
        if o in ("inc", "inc_"):
            q, a = p + 1, []
        elif o in ("dec", "dec_"):
            q, a = p - 1, []
        elif o in ("add", "plus", "sulp", "next"):
            q = r.randint(0, n)
            a = [q - p]
        elif o in ("sub", "minus", "rev"):
            q = r.randint(0, n)
            a = [p - q]
        elif o in ("begin", "end"):
            q, a = (0 if o == "begin" else n), []
        elif o == "swap":
            q, a = m, [r.randrange(2)]
            m = p
        elif o == "mark":
            q, a, m = p, [], p
        else:
            c = r.choice(t) if t and r.random() < 0.7 else scalar(r)
            q = next((k for k in range(p, n) if t[k] == c), n)
            a = [c]
        if not 0 <= q <= n:
            continue
        p = q
        ops.append([o] + a)
    return ops


# ------------------------------------------------------------------ C14
def c14(ck):
    r = ck.rng
    deep = ck.thorough
    cfgs = ["8_deep", "16_deep" if deep else "16", "32"] + (["8_long"] if deep else [])

    def job():
        return [(c, hist.explore(ck, "UtfEnum", "UtfEnum_" + c)) for c in cfgs]
    exe, runs = hist.with_build(["utf"], "utf", job)
    for c, edges in runs:
        ts = ENC[c.split("_")[0]]
        cases, exps = [], []
        for k, (src, op, res, dst) in enumerate(edges):
            s = engine.json.loads(dst)
            for t in (ts if deep or len(edges) < 20000 else [ts[k % len(ts)]]):
                cases.append({"k": "seq", "t": t, "s": s})
                exps.append(res)
        for n in (1, 2, 3):
            if n < len(cases):
                ck.sample({"units": cases[-n * 37 % len(cases)]["s"], "encoding": c})
        hist.compare(ck, "UtfEnum", exe, cases, exps, differs)
        ck.exhaustive.append("UTF-%s: all %d sequences of units over the representative ones, every length, offset, segment, code point and conversion" % (c, len(edges)))
    n = lambda q, t: t if deep else q
    rec = []
    # code points: a quarter of them (another one for every seed) in the deep run, all boundaries otherwise
    if deep:
        cps = sorted(set(list(range(r.randrange(4), 0x110000, 4)) + list(range(0x3100))))
    else:
        cps = sorted(set(list(range(0x0, 0x180)) + [b + d for b in (0x800, 0x1000, 0x1100, 0x1160, 0x2329, 0x232B, 0x2E80, 0x303F, 0x3040, 0xA4D0, 0xAC00, 0xD7A4, 0xD800, 0xDC00, 0xE000, 0xF900, 0xFB00, 0xFE10, 0xFE1A, 0xFE30, 0xFE70, 0xFF00, 0xFF61, 0xFFE0, 0xFFE7, 0x10000, 0x1F300, 0x1F650, 0x1F900, 0x1FA00, 0x20000, 0x2FFFE, 0x30000, 0x3FFFE, 0x40000, 0x80000, 0xC0000, 0x100000, 0x10FFFE) for d in (-2, -1, 0, 1)]
                            + [1 << k for k in range(21)] + [(1 << k) - 1 for k in range(21)] + [r.randrange(0x110000) for _ in range(4000)]))
    cps += [0x110000, 0x110001, 0x13FFFF]
    step = 64
    rec += [{"k": "cps", "c": cps[k:k + step]} for k in range(0, len(cps), step)]
    units = list(range(0x10000))
    rec += [{"k": "units", "c": units[k:k + 1024]} for k in range(0, 0x10000, 1024)]
    ck.exhaustive.append("%d code points in all encodings; all 65536 UTF-16 units and 256 bytes classified" % len(cps))
    for _ in range(n(1500, 6000)):
        rec.append({"k": "conv", "s": text(r, r.choice([2, 6, 20, 60]))})
    for _ in range(n(1500, 6000)):
        s = text(r, 6)
        y = list(s)
        for _ in range(r.randrange(3)):
            o = r.randrange(4)
            if o == 0:
                y = y[:r.randrange(len(y) + 1)]
            elif o == 1:
                y = y + text(r, 2)
            elif y:
                k = r.randrange(len(y))
                y[k] = scalar(r) if o == 2 else r.choice([0xD7FF, 0xE000, 0xFFFF, 0x10000, max(0, y[k] - 1) if y[k] - 1 < 0xD800 else y[k]])
        rec.append({"k": "cmp", "s": s, "y": y})
    for _ in range(n(2000, 8000)):
        s = text(r, r.choice([0, 1, 4, 9]))
        rec.append({"k": "walk", "t": r.randrange(5), "s": s, "ops": walk_ops(r, s, r.randrange(1, 30))})
    for _ in range(n(4000, 20000)):
        t = r.randrange(5)
        s = text(r, r.choice([1, 3, 8]))
        if t < 2:
            s = mangled(r, [b for c in s for b in utf8(c)], lambda: r.choice([r.randrange(256), r.randrange(128, 256)]))
        elif t == 2:
            s = mangled(r, [b for c in s for b in utf16(c)], lambda: r.choice([r.randrange(0x10000), r.randrange(0xD800, 0xE000)]))
        rec.append({"k": "seq", "t": t, "s": s})
    res = engine.run_cases(exe, rec)
    engine.judge(ck, "UtfTrace", rec, res, exe=exe, chunk=8000, describe=lambda v: {"step": v[0], "expected": v[1]})
    ck.part("recorded", traces=len(rec), code_points=len(cps))
