"""Random arguments and scripts"""
import re
from .vals import *
from fractions import Fraction as Fr

WORDS = ["", "a", "b", "ab", "hello", "Z", "x y", "é", "漢字", "a漢b", "😀", "𝄞x", "{}", "{", "}}", "{0}", "'q'", '"d"', "a\\b", "\t", "\n", "\r\n",
         "\x01", "\x1f\x7f", "true", "0", "12", "-3", "가나", "ｆｕｌｌ", "\u00a0", "\u0300a", "à la carte", "0123456789" * 3,
         "αβγδε", "日本語テキスト", "\u10ff", "\u1100", "\u115f\u1160", "\u2329\u232a", "\u303f", "\uffe6\uffe7", "\U0002fffd\U0003fffd", "mixed 漢 é 😀 end"]
CPS = [97, 90, 48, 32, 39, 34, 92, 9, 10, 13, 0, 31, 127, 0xA0, 0xE9, 0x3B1, 0x1100, 0x303F, 0x6F22, 0xAC00, 0xFF46, 0xFFFD, 0x1F600, 0x2A6D6, 0x10FFFF, 123, 125]
FILLS = ["*", "0", " ", "é", "漢", "😀", "<", ">", "^", "+", "#", ".", ":", "{", "a", "_", "'", "L"]
NAMES = ["x", "y", "name", "_u1", "Zz", "é", "名", "value", "a1b2", "X"]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.125, 2.75, 3.14, -2.5, 1.5, 100.0, 123456.0, 999999.5, 1e6, 12345678.9, 1e21, 1e-4, 1e-5, 1.25e-7, 6.02214076e23,
          0.1, 0.2, 0.3, 1 / 3, 2 / 3, 9.995, 0.045, 1e100, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 4.35, 0.000123456]
QF = [0.0, 0.5, -0.5, 1.0, -1.5, 2.0, 3.125, 10.25, 100.0, -7.75]
TMSPECS = ["%Y", "%Y-%m-%d", "%H:%M:%S", "%j", "%a %b", "%F %T", "%D", "%e|%u|%w", "%p %R", "%%", "at %H", "年%Y", "%A, %B", "%y%m"]


class Gen:
    def __init__(self, rng, w=0, loc=0):
        """w: 0 char, 1 wchar_t, 2 char16_t, 3 char8_t, 4 char32_t"""
        self.r, self.w, self.loc = rng, w, loc
        self.uni = w >= 2  # no locales, streams and calendar times
        self.bytes = w in (0, 3)

    def pick(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    # -------------------------------------------------------- values
    def int(self, k=None):
        k = k or self.pick(["i32"] * 4 + list(RANGES))
        lo, hi = RANGES[k]
        c = self.r.random()
        if c < 0.4:
            x = self.pick([0, 1, -1, 2, 7, 8, 9, 10, 15, 16, 99, 100, 127, 255, 256, -10, -128, 65, 97, 0x6F22, 0x1F600, 0x10FFFF, 0x110000])
        elif c < 0.55:
            x = self.pick([lo, hi, lo + 1, hi - 1])
        elif c < 0.8:
            x = self.r.getrandbits(self.r.randrange(1, 65)) * self.pick([1, -1])
        else:
            x = 10 ** self.r.randrange(0, 20) + self.pick([-1, 0, 1])
        if x < lo or x > hi:
            x = self.pick([1, 5, 12, 100])
        return I(x, k)

    def small(self, lo=0, hi=12):
        return I(self.r.randint(lo, hi), self.pick(["i32", "u8", "i64", "u64", "i16", "ul64"]))

    def word(self):
        c = self.r.random()
        if c < 0.7:
            return self.pick(WORDS)
        return "".join(self.pick(["a", "b", "é", "漢", "😀", " ", "{", "}", "'", '"', "\\", "\n", "0", "\x02", "ß"]) for _ in range(self.r.randrange(0, 12)))

    def str(self):
        return S(self.word(), self.r.randrange(6))

    def cp(self):
        return C(self.pick(CPS), self.r.randrange(3))

    def float(self, q=False):
        k = self.pick([0, 1, 1, 1, 2])
        if q:
            c = self.r.random()
            if c < 0.3:
                return FU(self.pick([0, 125, -125]), self.r.randrange(-4, 5), k)
            if c < 0.4:
                return F(self.pick(["inf", "nan"]), k, neg=self.p(0.4))
            x = Fr(self.pick(QF))
            return F(x, k, neg=x < 0)
        c = self.r.random()
        if c < 0.07:
            return F(self.pick(["inf", "nan"]), k, neg=self.p(0.4))
        if c < 0.6:
            x = self.pick(FLOATS)
            if k == 0 and (abs(x) > 3e38 or (0 < abs(x) < 1e-37)):
                x = 1.5
            return F(x, k)
        if c < 0.8:
            return F(Fr(self.r.randrange(-10**7, 10**7), self.pick([1, 8, 10, 100, 1000, 4096])), k)
        if c < 0.86: # powers of two: the gap below is half of the gap above
            return F(Fr(2) ** self.r.randrange(-100, 100) * self.pick([1, -1]), k)
        return F(Fr(self.r.getrandbits(60) + 1) * Fr(2) ** self.r.randrange(-110, 60) * self.pick([1, -1]), k)

    def ptr(self):
        return P(self.pick([0, 1, 0xFFFF, 0x1234ABCD, 0xDEADBEEFCAFE, 2**64 - 1, 0x10000]))

    def enum(self):
        k = self.r.randrange(2)
        return E(self.pick(list((COLOR, LEVEL)[k])), k)

    def elem(self, ek, d=0):
        r = self.r
        if ek == "i":
            return I(self.pick([0, 1, -1, 5, 42, -100, 2**31 - 1, -2**31]))
        if ek == "ll":
            return I(self.pick([0, -2**63, 2**63 - 1, 7]), "i64")
        if ek == "b":
            return B(r.randrange(2))
        if ek == "c":
            return C(self.pick([97, 98, 34, 39, 92, 10, 48, 123] + ([] if self.bytes else [0x6F22, 0xE9])))
        if ek == "cp":
            return C(self.pick(CPS))
        if ek == "s":
            return S(self.word())
        if ek == "f":
            v = self.float()
            while v["k"] != 1:
                v = self.float()
            return v
        if ek == "e":
            return E(self.pick(list(COLOR)), 0)
        if ek == "vi":
            return SEQ("vec", "i", [self.elem("i") for _ in range(r.randrange(4))])
        if ek == "vs":
            return SEQ("vec", "s", [self.elem("s") for _ in range(r.randrange(3))])
        if ek == "vc":
            return SEQ("vec", "c", [self.elem("c") for _ in range(r.randrange(4))])
        if ek == "p":
            return self.ptr()
        if ek == "oi":
            return OPT("i", None if self.p(0.4) else self.elem("i"))
        if ek == "pis":
            return tup("is", [self.elem("i"), self.elem("s")])
        if ek == "tisb":
            return tup("isb", [self.elem("i"), self.elem("s"), self.elem("b")])
        raise KeyError(ek)

    def seq(self, kind=None, ek=None):
        ek = ek or self.pick(["i", "i", "s", "s", "ll", "b", "c", "cp", "f", "e", "p", "vi", "vs", "vc", "pis", "tisb"])
        kinds = ["vec"]
        if ek != "b":
            kinds.append("span")
        if ek in ("i", "s"):
            kinds += ["list", "set", "fix", "small", "arr", "carr"]
        kind = kind or self.pick(kinds)
        n = 3 if kind == "arr" else 2 if kind == "carr" else self.r.randrange(0, 6)
        vs = [self.elem(ek) for _ in range(n)]
        if kind == "set":
            if ek == "i":
                xs = sorted({(-1 if v["g"] else 1) * sum(l << (16 * i) for i, l in enumerate(v["l"])) for v in vs})
                vs = [I(x) for x in xs]
            else:
                key = lambda v: list("".join(map(chr, v["v"])).encode("utf-16-be" if self.w == 2 else "utf-8"))
                u = []
                for v in sorted(vs, key=key):
                    if not u or u[-1]["v"] != v["v"]:
                        u.append(v)
                vs = u
        return SEQ(kind, ek, vs)

    def map(self):
        kind = self.pick(["less", "greater", "flat", "less", "other"])
        mk = self.pick(["is", "si"])
        n = self.r.randrange(0, 2 if kind == "other" else 5)
        keys = self.r.sample([-3, 0, 1, 2, 10, 2**31 - 1, -2**31] if mk == "is" else ["", "a", "b", "key", "é", "z z", "{}"], n)
        return MAP(kind, mk, [(k, S(self.word()) if mk == "is" else self.elem("i")) for k in keys])

    def tup(self):
        k = self.pick(["", "i", "is", "si", "isb", "fci", "svi", "iiii", "pi", "ovb", "eptu"])
        if k == "ovb":
            return tup(k, [self.elem("oi"), self.nis(), SEQ("vec", "b", [self.elem("b") for _ in range(self.r.randrange(3))])])
        if k == "eptu":
            return tup(k, [self.elem("e"), self.elem("p"), self.elem("pis"), I(self.r.randrange(256), "u8")])
        el = {"": [], "i": ["i"], "is": ["i", "s"], "si": ["s", "i"], "isb": ["i", "s", "b"], "fci": ["f", "cp", "i"], "svi": ["s", "vi"], "iiii": ["i"] * 4, "pi": ["p", "i"]}[k]
        return tup(k, [self.elem(e) for e in el])

    def opt(self):
        ok = self.pick(["i", "s", "vi", "p", "f", "c", "oi"])
        return OPT(ok, None if self.p(0.35) else self.elem({"c": "cp"}.get(ok, ok)))

    def exp(self):
        ok, h = self.pick(["is", "si", "ss", "vip"]), self.r.randrange(2)
        return EXP(ok, h, self.elem({"is": "si", "si": "is", "ss": "ss", "vip": ["p", "vi"]}[ok][h]))

    def nis(self):
        x = self.r.randrange(3)
        return VAR("nis", x, NIL if x == 0 else self.elem("i" if x == 1 else "s"))

    def var(self):
        if self.p(0.4):
            return self.nis()
        x = self.r.randrange(3)
        if self.p(0.4):
            return VAR("pvt", x, self.elem(["p", "vi", "pis"][x]))
        return VAR("ifb", x, self.elem("ifb"[x]))

    def tm(self, specs=None):
        r = self.r
        y = self.pick([70, 99, 100, 124, 126, 200, -900])
        return TM(y, r.randrange(12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(7), r.randrange(366), self.pick([0, 0, 1, -1]),
                  TMSPECS if specs is None else specs)

    def join(self):
        ek = self.pick(["i", "s", "f", "b", "p", "c", "cp", "vi", "pis"])
        sep = self.pick([None, "", "-", ", ", " and ", "漢", "{}", "}"])
        n = self.r.randrange(0, 5)
        return JOIN(sep, ek, [self.elem(ek) for _ in range(n)])

    def user(self, kinds=("cls", "adl", "adlp", "str", "none")):
        k = self.pick([x for x in kinds if x != "str" or not self.uni])
        return U(k, self.word() if k != "str" else self.word(), chr(self.pick([33, 0x6F22, 0xE9, 0x1F600])), self.r.randrange(2), self.r.randrange(2))

    def path(self):
        return PATH(self.pick(["", "/", "/tmp/x", "a/../b", "é漢.txt", "with space", 'q"uote', "tab\there"]))

    def value(self, kinds=None):
        if kinds and self.uni:
            kinds = [k for k in kinds if k not in ("tm", "tid")] or ["i"]
        k = self.pick(kinds or ["i", "i", "s", "s", "c", "b", "f", "p", "e", "seq", "map", "tup", "opt", "exp", "ti", "var", "join", "u", "path", "sb", "n"] + ([] if self.uni else ["tm", "tid"]))
        return {"i": self.int, "s": self.str, "c": self.cp, "b": lambda: B(self.r.randrange(2)), "f": self.float, "p": self.ptr,
                "e": self.enum, "seq": self.seq, "map": self.map, "tup": self.tup, "opt": self.opt, "exp": self.exp,
                "tid": lambda: TID(None if self.uni or self.p(0.2) else self.r.randrange(1, 2 ** self.pick([5, 20, 63]))), "ti": lambda: TI(self.r.randrange(3)), "var": self.var, "tm": self.tm,
                "join": self.join, "u": self.user, "path": self.path, "sb": self.bad_string, "n": lambda: dict(NIL),
                "qf": lambda: self.float(True), "small": self.small}[k]()

    def bad_string(self):
        if not self.bytes:
            return S(self.word())
        bs = []
        for _ in range(self.r.randrange(0, 8)):
            bs += self.pick([[97], [0x80], [0xC3, 0xA9], [0xC3], [0xE6, 0xBC, 0xA2], [0xE6, 0xBC], [0xF0, 0x9F, 0x98, 0x80], [0xF0, 0x9F], [0xFF], [0xF8], [34], [10], [0xBF, 0xBF]])
        return SB(bs)

    def args(self, n=None, kinds=None, lw=0):
        n = self.r.randrange(1, 5) if n is None else n
        nn = self.r.randrange(0, 3)
        names = self.r.sample(NAMES, nn)
        return ARGS([self.value(kinds) for _ in range(n)], [(x, self.value(kinds)) for x in names], w=self.w, lw=lw,
                    loc=self.loc, tn=self.pick(["yes", "ja", "真", "oui {}"]), fn=self.pick(["no", "nein", "偽", ""]))

    # -------------------------------------------------------- specifications
    def num(self, A, lo, hi, auto):
        """literal or by another argument"""
        c = self.r.random()
        if c < 0.72 or auto is None:
            return str(self.r.randint(lo, hi))
        ok = [i for i, v in enumerate(A["pos"]) if v["t"] == "i" and not v["g"] and v["l"][1:] == [0, 0, 0] and 0 < v["l"][0] < 60]
        fits = lambda v: v["t"] == "i" and not v["g"] and v["l"][1:] == [0, 0, 0] and 0 < v["l"][0] < 60
        nm = [x["n"] for x in A["nam"] if all(fits(y["v"]) for y in A["nam"] if y["n"] == x["n"])]
        if nm and self.p(0.5):
            return "{%s}" % "".join(map(chr, self.pick(nm)))
        if auto:
            i = self.next_auto
            v = A["pos"][i] if i < len(A["pos"]) else None
            if v is None or v["t"] != "i":
                if self.p(0.85):
                    return str(self.r.randint(lo, hi))
            elif v["g"] or v["l"][1:] != [0, 0, 0] or v["l"][0] > 60:
                return str(self.r.randint(lo, hi))
            self.next_auto += 1
            return "{}"
        if ok:
            return "{%d}" % self.pick(ok)
        return str(self.r.randint(lo, hi))

    def align(self):
        c = self.r.random()
        if c < 0.4:
            return ""
        if c < 0.6:
            return self.pick("<>^")
        return self.pick(FILLS) + self.pick("<>^")

    def std(self, A, types, auto, prec=None, p=0.5):
        s = self.align()
        if self.p(p * 0.5):
            s += self.pick("+- ")
        if self.p(p * 0.4):
            s += "#"
        if self.p(p * 0.4):
            s += "0"
        if self.p(0.6):
            s += self.num(A, 1, 30, auto)
        if prec and self.p(0.45):
            s += "." + prec()
        if self.p(0.12):
            s += "L"
        if types and self.p(0.6):
            s += self.pick(types)
        return s

    def spec(self, v, A, auto, d=0):
        t = v["t"]
        if t == "i":
            return self.std(A, "XxBbodc", auto)
        if t == "f":
            return self.std(A, "fFgGeEaA", auto, lambda: str(self.pick(PRECS)))
        if t == "c":
            return self.std(A, "c?XxBbod", auto)
        if t == "b":
            return self.std(A, "ssXxBbod", auto)
        if t == "s":
            return self.std(A, "ss?", auto, lambda: self.num(A, 0, 20, auto))
        if t == "path":
            return self.std(A, "??g", auto, lambda: str(self.r.randrange(0, 20)))
        if t == "p":
            return self.std(A, "pP", auto)
        if t == "e":
            return self.std(A, "sssxXdbo", auto, lambda: str(self.r.randrange(0, 6)))
        if t == "sb":
            return self.pick(["", "?"])
        if t in ("seq", "map"):
            ty = self.pick(["", "", "n", "m", "s" if v.get("ek") in ("c", "cp") else "n", "?s" if v.get("ek") in ("c", "cp") else ""])
            if self.p(0.5):
                e = {"t": "tup", "n": 2} if t == "map" else v["e"]
                return ty + ":" + (self.spec(e, A, auto, d + 1) if d < 3 else "")
            return ty
        if t == "tup":
            return self.pick(["", "n", "m" if v["n"] == 2 else ""])
        if t == "tm":
            s = self.align() if self.p(0.4) else ""
            if self.p(0.4):
                s += self.num(A, 1, 40, auto)
            if self.p(0.3):
                s += "L"
            if v.get("r") and self.p(0.7):
                s += "".join(map(chr, self.pick(v["r"])["k"]))
            return s
        if t == "u":
            if v["k"] == "cls":
                m = self.pick(["", "abc"] + ([] if self.uni else ["l", "xlz"]))
                if auto and self.p(0.3):
                    w = self.num(A, 1, 9, auto)
                    m += w if w == "{}" else ""
                return m
            if v["k"] == "adlp":
                return self.pick(["", "abc", "any thing", "漢"])
            if v["k"] == "str":
                return self.align() + (self.num(A, 1, 20, auto) if self.p(0.6) else "") + ("L" if self.p(0.3) else "")
            return ""
        if t == "join":
            return self.spec(v["e"], A, auto, d + 1) if self.p(0.6) else ""
        return ""

    # -------------------------------------------------------- access
    def chain(self, v, deep=0):
        """one access that v documents, and the value reached (None: unknown)"""
        t = v["t"]
        r = self.r

        def num(n):
            return r.randint(-n - 2, n + 2) if self.p(0.3) else (r.randrange(-n, n) if n else 0)

        def rng(n):
            a = "" if self.p(0.3) else str(num(n))
            b = "" if self.p(0.3) else str(num(n))
            return "[%s:%s]" % (a, b)
        if t == "s":
            return self.pick(["[%d]" % num(len(v["v"])), rng(len(v["v"])), ".length", ".size"])
        if t == "seq":
            return self.pick(["[%d]" % num(len(v["v"]))] * 2 + [rng(len(v["v"])), ".size"])
        if t == "tup":
            return self.pick(["[%d]" % num(len(v["v"])), ".size", ".first", ".second"])
        if t == "map":
            k = []
            for kv in v["v"]:
                if v["mk"] == "is":
                    k.append("[%d]" % ((-1 if kv[0]["g"] else 1) * sum(l << (16 * i) for i, l in enumerate(kv[0]["l"]))))
                else:
                    k.append("['%s']" % "".join(map(chr, kv[0]["v"])))
            return self.pick(k * 2 + ["[5]", "['nokey']", ".size", ".min", ".max"])
        if t == "opt":
            return self.pick([".value", ".has_value"])
        if t == "exp":
            return self.pick([".value", ".error", ".has_value"])
        if t == "ti":
            return ".name"
        if t == "var":
            return self.pick(["[%d]" % num(3), ".index"] + ([".value"] if v["v"]["t"] != "n" else []))
        if t == "tm":
            return self.pick([".year", ".month", ".mday", ".hour", ".min", ".sec", ".wday", ".yday", ".is_dst"])
        if t == "u" and v["k"] == "cls":
            return self.pick(["[%d]" % r.randrange(-200, 99), "['key']", ".text"])
        return ""

    def name_of(self, A):
        return "".join(map(chr, self.pick(A["nam"])["n"]))

    def access(self, A, st):
        """(text, value designated or None).  st: {"auto": bool, "n": next}"""
        if A["nam"] and self.p(0.25):
            x = self.pick(A["nam"])
            return "".join(map(chr, x["n"])), x["v"]
        if st["auto"]:
            i = st["n"]
            st["n"] += 1
            return "", A["pos"][i] if i < len(A["pos"]) else None
        i = self.r.randrange(len(A["pos"])) if A["pos"] else 0
        return str(i), A["pos"][i] if A["pos"] else None

    def field(self, A, st, chains=0.3):
        f, v = self.access(A, st)
        if v is not None and self.p(chains):
            f += self.chain(v)
            v = None
        sp = ""
        if v is not None and self.p(0.7):
            self.next_auto = st["n"]
            sp = self.spec(v, A, st["auto"])
            if st["auto"]:
                st["n"] = self.next_auto
        return "{" + f + (":" + sp if sp or self.p(0.1) else "") + "}"

    def qtext(self):
        if self.p(0.4):  # many escapes, anywhere
            return "'" + "".join(self.pick(["\\n", "\\t", "\\'", "\\\\", '\\"', "\\r", "\\0", "\\a", "\\x", "\\{", "\\é", "\\漢", "a", "é", "漢", "😀", " ", "{", "}", "0"])
                                 for _ in range(self.r.randrange(1, 7))) + "'"
        return "'" + self.pick(["", "yes", "no", "é漢", "a\\'b", "x\\ny", "t\\tt", "\\\\", "{}", "}", ":", "?"]) + "'"

    def operand(self, A, st):
        c = self.r.random()
        if c < 0.35:
            return self.pick(["0", "1", "-1", "5", "12", "-", "007", "9223372036854775807", "-9223372036854775808", "0.5", "-1.5", ".5", "2.", "3.125", "100", "0.125", "-.125", "0.0"])
        if c < 0.5:
            return self.qtext()
        f, v = self.access(A, st)
        return "{" + f + (self.chain(v) if v and v["t"] in ("s", "tup", "seq") and self.p(0.2) else "") + "}"

    def ws(self):
        return self.pick(["", "", "", " ", "  ", "\t", "\n "])

    def cond(self, A, st):
        c = self.r.random()
        if c < 0.25:
            return self.ws() + self.operand(A, st)
        if c < 0.4:
            return self.ws() + "!" + self.ws() + self.operand(A, st)
        return self.ws() + self.operand(A, st) + self.ws() + self.pick(["==", "!=", "<", "<=", ">", ">="]) + self.ws() + self.operand(A, st)

    def branch(self, A, st):
        return self.ws() + (self.qtext() if self.p(0.5) else self.field(A, st)) + self.ws()

    def scripted(self, A, st):
        s = "{$" + self.cond(A, st) + self.ws() + "?" + self.branch(A, st)
        while self.p(0.4):
            s += ":" + self.ws() + "$" + self.cond(A, st) + self.ws() + "?" + self.branch(A, st)
        if self.p(0.6):
            s += ":" + self.branch(A, st)
        return s + "}"

    def text(self):
        return self.pick(["", "a", " ", "text ", "é", "漢😀", "{{", "}}", "{{}}", "a{{b", "x:y?", "'", "$", "\n", "end", "[0]", ".", "0"])

    def script(self, A, n=None, scripted=0.25, chains=0.3, mix=0.05):
        st = {"auto": self.p(0.5), "n": 0}
        s = self.text()
        for _ in range(n or self.r.randrange(1, 4)):
            if st["auto"] and st["n"] >= len(A["pos"]) and self.p(0.85):
                if self.p(0.5) or not A["pos"]:
                    break
                st["auto"] = False
            if self.p(mix):
                st["auto"] = not st["auto"]
            s += (self.scripted(A, st) if self.p(scripted) else self.field(A, st, chains)) + self.text()
        return s

    def mutate(self, s):
        s = list(s)
        for _ in range(self.r.randrange(1, 3)):
            c = self.r.random()
            i = self.r.randrange(len(s)) if s else 0
            if c < 0.3 and s:
                del s[i]
            elif c < 0.5:
                s = s[:i]
            elif c < 0.8:
                s.insert(i, self.pick(list("{}{}:$?'[].0-!=<> a9\\L#+xé%") + ["{}", "99999999999999999999", "[", "{$", "?", ":"]))
            elif s:
                s[i] = self.pick(list("{}:$?'[].0-!=a"))
        return "".join(s)

    def mutated(self, A, s):
        """a mutated script, none that asks for gigabytes of output"""
        big = any(v["t"] == "i" and not v["g"] and (v["l"][1:] != [0, 0, 0] or v["l"][0] > 5000) for v in A["pos"] + [x["v"] for x in A["nam"]])
        for _ in range(20):
            t = self.mutate(s)
            if re.search(r":.*(?<!\d)\d{5,19}(?!\d)", t, re.S):
                continue
            if big and re.search(r":[^{}]*\{", t):
                continue
            return t
        return s


def case(s, A):
    return {"s": T(s) if isinstance(s, str) else s, "A": A}
