"""Descriptions of argument values (see spec/PapAccess.tla and
harness/values.hpp) and the tables of renderings of floating point numbers."""
import math, struct, time
from fractions import Fraction as Fr
from functools import lru_cache


def T(s):
    return [ord(c) for c in s]


def limbs(m):
    return [(m >> (16 * i)) & 0xFFFF for i in range(4)]


RANGES = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
          "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "l64": (-2**63, 2**63 - 1),
          "ul64": (0, 2**64 - 1), "u64": (0, 2**64 - 1)}


def I(x, k="i32"):
    lo, hi = RANGES[k]
    assert lo <= x <= hi, (x, k)
    return {"t": "i", "g": 1 if x < 0 else 0, "l": limbs(abs(x)), "k": k}


def B(x):
    return {"t": "b", "v": 1 if x else 0}


def C(c, k=0):
    return {"t": "c", "v": c if isinstance(c, int) else ord(c), "k": k}


def S(s, k=0):
    return {"t": "s", "v": T(s) if isinstance(s, str) else list(s), "k": k}


def SB(bs):
    return {"t": "sb", "v": list(bs)}


def P(x):
    return {"t": "p", "l": limbs(x)}


NIL = {"t": "n"}
COLOR = {0: "alpha", 7: "beta", -3: "gamma"}
LEVEL = {1: "lo", 100: "hi"}


def E(x, k=0):
    return {"t": "e", "g": 1 if x < 0 else 0, "l": limbs(abs(x)), "nm": T((COLOR, LEVEL)[k][x]), "k": k}


# ------------------------------------------------------------ floating point
# Exact arithmetic: the value is a rational number m * 2^e.
BITS = {0: (24, -149, 127), 1: (53, -1074, 1023), 2: (64, -16445, 16383)}


def round_to(x, k):
    """nearest value of format k of a positive rational (ties to even)"""
    p, emin, _ = BITS[k]
    if x == 0:
        return Fr(0)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    while Fr(2) ** e > x:
        e -= 1
    while Fr(2) ** (e + 1) <= x:
        e += 1
    q = max(e - p + 1, emin)
    u = Fr(2) ** q
    return rne(x / u) * u


def rne(x):
    n, d = x.numerator, x.denominator
    q, r = divmod(n, d)
    if 2 * r > d or (2 * r == d and q & 1):
        q += 1
    return q


def exp10(x):
    """floor(log10(x)), x > 0"""
    n, d = x.numerator, x.denominator
    e = len(str(n)) - len(str(d))
    if Fr(10) ** e > x:
        e -= 1
    elif Fr(10) ** (e + 1) <= x:
        e += 1
    return e


def sci(x, prec):
    """(digits, exponent) of x rounded to prec + 1 significant digits"""
    if x == 0:
        return "0" * (prec + 1), 0
    e = exp10(x)
    q = rne(x / Fr(10) ** (e - prec))
    s = str(q)
    if len(s) > prec + 1:
        e += 1
        s = s[:-1]
    return s, e


def put_exp(s, e):
    r = s[0] + ("." + s[1:] if len(s) > 1 else "")
    return "%se%s%02d" % (r, "-" if e < 0 else "+", abs(e))


def fmt_e(x, prec):
    return put_exp(*sci(x, prec))


def fmt_f(x, prec):
    q = rne(x * 10 ** prec)
    s = str(q).rjust(prec + 1, "0")
    return s[:-prec] + "." + s[-prec:] if prec else s


def fmt_g(x, prec):
    prec = prec or 1
    s, e = sci(x, prec - 1)
    if -4 <= e < prec:
        r = fmt_f(x, prec - 1 - e)
        return r.rstrip("0").rstrip(".") if "." in r else r
    s = s.rstrip("0") or "0"
    return put_exp(s, e)


def shortest(x, k):
    """fewest digits that read back as x, the closest of them"""
    if x == 0:
        return "0", 0
    e = exp10(x)
    for p in range(0, 40):
        y = x / Fr(10) ** (e - p)
        q = rne(y)
        # at a power of two only the farther neighbour may read back as x
        for c in (q, q + 1 if q < y else q - 1):
            if c > 0 and round_to(Fr(c) * Fr(10) ** (e - p), k) == x:
                s = str(c)
                return s.rstrip("0"), e + len(s) - p - 1
    raise AssertionError


def fmt_short(x, k):
    s, e = shortest(x, k)
    if -4 <= e < 6:
        if e < 0:
            return "0." + "0" * (-e - 1) + s
        if len(s) <= e + 1:
            return s + "0" * (e + 1 - len(s))
        return s[:e + 1] + "." + s[e + 1:]
    return put_exp(s, e)


def fmt_a(x, k, prec):
    """prec None: as many digits as needed"""
    if x == 0:
        return "0" + ("." + "0" * prec if prec else "") + "p+0"
    p, emin, _ = BITS[k]
    e = x.numerator.bit_length() - x.denominator.bit_length()
    while Fr(2) ** e > x:
        e -= 1
    while Fr(2) ** (e + 1) <= x:
        e += 1
    m = x / Fr(2) ** e  # 1 <= m < 2
    if prec is None:
        d = (p - 1 + 3) // 4
        h = "%x" % rne(m * 16 ** d)
        r = h[1:].rstrip("0")
        return h[0] + ("." + r if r else "") + "p%+d" % e
    h = "%x" % rne(m * 16 ** prec)
    return h[0] + ("." + h[1:] if prec else "") + "p%+d" % e


PRECS = [0, 1, 2, 3, 6, 10, 17, 40]


@lru_cache(maxsize=None)
def table(x, k):
    r = []
    for p in PRECS:
        for key, f in ((101, fmt_e), (102, fmt_f), (103, fmt_g)):
            r.append((key, p, f(x, p)))
        if k != 2 and (x == 0 or x >= Fr(2) ** (BITS[k][1] + BITS[k][0] - 1)):
            r.append((97, p, fmt_a(x, k, p)))
    if k != 2:
        r.append((97, -1, fmt_a(x, k, None)))
    r.append((0, -1, fmt_short(x, k)))
    return [{"k": a, "p": b, "s": T(c)} for a, b, c in r]


def hexf(x, k):
    """C hexadecimal literal of the exact value"""
    if x == 0:
        return "0x0p+0"
    n, d = x.numerator, x.denominator
    e = -(d.bit_length() - 1)
    while n % 2 == 0:
        n //= 2
        e += 1
    return "0x%xp%+d" % (n, e)


def F(x, k=1, neg=None):
    """x: int, float, Fraction, 'inf' or 'nan'"""
    if x in ("inf", "nan"):
        return {"t": "f", "k": k, "h": "", "cls": 1 if x == "inf" else 2, "g": 1 if neg else 0, "r": [], "hq": 1, "q": (-1 if neg else 1) if x == "inf" else 0, "u": 0}
    if isinstance(x, float):
        if neg is None:
            neg = math.copysign(1, x) < 0
        x = Fr(x)
    x = Fr(x)
    if neg is None:
        neg = x < 0
    dec = x
    x = round_to(abs(x), k)
    q = dec * 1000
    hq = q.denominator == 1 and abs(q) < 1000000 and (k == 0 or q % 125 == 0 or True)
    if x != abs(dec) and k == 2:
        hq = False
    return {"t": "f", "k": k, "h": hexf(x, k), "cls": 0, "g": 1 if neg else 0, "r": table(x, k),
            "hq": 1 if hq else 0, "q": int(q) * (1 if not neg or q < 0 else -1) if hq else 0, "u": 0}


def FU(base, u, k=1):
    """base thousandths (0, 125 or -125) and u units of 2^-26"""
    v = F(Fr(base, 1000) + Fr(u, 2 ** 26), k)
    v.update(hq=1, q=base, u=u)
    return v


# ------------------------------------------------------------ containers
def seq(kind, ek, vals, e):
    if ek == "b" and kind == "vec":
        kind = "vb"
    return {"t": "seq", "k": kind, "ek": ek, "e": e, "v": vals}


D_I = {"t": "i", "g": 0, "l": [0, 0, 0, 0]}
D_S = {"t": "s", "v": []}
D_B = {"t": "b", "v": 0}
D_C = {"t": "c", "v": 97}
D_F = {"t": "f", "cls": 1, "g": 0, "r": [], "hq": 0, "q": 0, "k": 1}
D_E = {"t": "e", "g": 0, "l": [0, 0, 0, 0], "nm": T("alpha")}


def tup(kind, vals):
    return {"t": "tup", "n": len(vals), "v": vals, "tk": kind}


D_P = {"t": "p", "l": [0, 0, 0, 0]}
DESC = {"p": D_P, "i": D_I, "ll": D_I, "s": D_S, "b": D_B, "c": D_C, "cp": D_C, "f": D_F, "e": D_E,
        "vi": {"t": "seq", "k": "vec", "e": D_I, "v": []}, "vs": {"t": "seq", "k": "vec", "e": D_S, "v": []},
        "vc": {"t": "seq", "k": "vec", "e": D_C, "v": []}, "pis": {"t": "tup", "n": 2, "v": []},
        "tisb": {"t": "tup", "n": 3, "v": []}}


def SEQ(kind, ek, vals):
    return seq(kind, ek, vals, DESC[ek])


def MAP(kind, mk, kvs):
    """kvs: list of (python key, value description)"""
    if kind in ("less", "flat"):
        kvs = sorted(kvs, key=lambda kv: T(kv[0]) if mk == "si" else kv[0])
    elif kind == "greater":
        kvs = sorted(kvs, key=lambda kv: T(kv[0]) if mk == "si" else kv[0], reverse=True)
    mkk = (lambda k: I(k)) if mk == "is" else (lambda k: S(k))
    return {"t": "map", "k": kind, "mk": mk, "kt": D_I if mk == "is" else D_S, "vt": D_S if mk == "is" else D_I,
            "v": [[mkk(k), v] for k, v in kvs]}


def OPT(ok, v=None):
    return {"t": "opt", "h": 0 if v is None else 1, "v": v or {"t": "n"}, "ok": ok}


def EXP(ok, h, v):
    """the value (h = 1) or the error"""
    return {"t": "exp", "h": h, "v": v, "ok": ok}


def TID(n=None):
    """a thread id; none: of no thread"""
    x = n or 0
    return {"t": "tid", "h": 0 if n is None else 1, "l": [(x >> (16 * i)) & 0xFFFF for i in range(4)],
            "v": T("thread::id of a non-executing thread" if n is None else str(n))}


def TI(x):
    return {"t": "ti", "x": x, "v": T(["i", "N4user5colorE", "St6vectorIPN4user5levelESaIS2_EE"][x])}


def VAR(vk, x, v):
    return {"t": "var", "x": x, "n": 3, "v": v, "vk": vk}


def PATH(s):
    return {"t": "path", "v": T(s)}


def JOIN(sep, ek, vals):
    return {"t": "join", "v": vals, "sep": T(", " if sep is None else sep), "dsep": 1 if sep is None else 0,
            "e": DESC[ek], "ek": ek}


def U(kind, text, c="!", big=0, own=0):
    return {"t": "u", "k": kind, "v": T(text), "c": T(c), "big": big, "own": own}


TM_CODES = "YmdHMSjabpyFTDReuwAB%"


def TM(year, mon, mday, hour, mn, sec, wday, yday, isdst, specs=()):
    """month 0.., year since 1900 as struct tm; specs: texts to be rendered"""
    st = time.struct_time((year + 1900, mon + 1, mday, hour, mn, sec, (wday + 6) % 7, yday + 1, isdst))

    def render(spec, op="", cl=""):
        out, i = "", 0
        while i < len(spec):
            if spec[i] == "%" and i + 1 < len(spec):
                out += op + time.strftime(spec[i:i + 2], st) + cl
                i += 2
            else:
                out += spec[i]
                i += 1
        return out
    return {"t": "tm", "year": year, "mon": mon, "mday": mday, "hour": hour, "min": mn, "sec": sec, "wday": wday,
            "yday": yday, "isdst": isdst, "r": [{"k": T(s), "s": T(render(s)), "ls": T(render(s, "[", "]"))} for s in specs]}


def ARGS(pos=(), nam=(), w=0, lw=0, loc=0, tn="true", fn="false"):
    if not loc:
        tn, fn = "true", "false"
    return {"pos": list(pos), "nam": [{"n": T(n), "v": v} for n, v in nam], "w": w, "lw": lw, "loc": loc, "tn": T(tn), "fn": T(fn)}
