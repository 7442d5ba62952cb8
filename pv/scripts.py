"""The script family of checks (C01-C10, C21, C23): PapScript explored over
families of scripts and replayed on the real code, and recorded calls of the
real code judged by ScriptTrace."""
import os, tempfile, threading
from . import engine, build, tlc
from .engine import dumps
from .vals import *

SRC = ["script_n", "script_w", "script_8", "script_16", "script_32", "script_main"]
ERR_OK = {"end_of_string", "unenclosed_brace", "invalid_field_name", "invalid_condition", "invalid_index",
          "invalid_attribute", "invalid_operator", "invalid_string", "format_error", "out_of_range",
          "invalid_conversion", "attr", "runtime"}


def harness():
    return build.build(SRC, "script")


def utf8(cps):
    b = bytearray()
    for c in cps:
        if c < 0:
            b.append(-1 - c)
        else:
            b += chr(c).encode("utf-8", "surrogatepass")
    return list(b)


def units(cps, w):
    """the text in the code units of character type w: 0 char, 1 wchar_t, 2 char16_t, 3 char8_t, 4 char32_t"""
    if w in (1, 4):
        return cps
    if w in (0, 3):
        return utf8(cps)
    out = []
    for c in cps:
        out += [0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)] if c > 0xFFFF else [-1 - c if c < 0 else c]
    return out


def enum_cases(ck, families, lists, timeout=700):
    """families: [(slots, [list indices])], slot: list of strings.
    Explores all of them with TLC; returns [(case, expected)]."""
    doc = {"families": [{"slots": [[T(x) if isinstance(x, str) else x for x in sl] for sl in slots], "args": [a + 1 for a in args]}
                        for slots, args in families],
           "lists": lists, "nlists": max(len(a) for _, a in families)}
    fd, p = tempfile.mkstemp(prefix="enum_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        f.write(dumps(doc))
    try:
        r = tlc.run("ScriptEnum", None, {"ENUM": p}, heap="10g", timeout=timeout)
    finally:
        os.remove(p)
    ck.note_tlc(r)
    out = []
    for t in r.tuples:
        v = tlc.parse_value(t)
        if v[0] != "R":
            continue
        _, f, a, c, e, o, h = v
        ck.acts(h)
        fam = doc["families"][f - 1]
        s = [ch for sl, i in zip(fam["slots"], c) for ch in sl[i - 1]]
        out.append(({"s": s, "A": lists[fam["args"][a - 1] - 1]}, (e, o)))
    total = 0
    for fam in doc["families"]:
        n = len(fam["args"])
        for sl in fam["slots"]:
            n *= len(sl)
        total += n
    if len(out) != total:
        raise tlc.ModelError("explored %d of %d scripts" % (len(out), total))
    ck.exhaustive.append("%d scripts: all choices of %d families" % (total, len(families)))
    return out


def same(exp, got, w):
    e, o = exp
    if "notrun" in got:
        return None
    if "crash" in got:
        return False
    if e == "?":
        return None
    if e:
        return got["ok"] == 0 and (got["e"] == e or (e == "not_integer" and got["e"] in ("format_error", "invalid_conversion")))
    return got["ok"] == 1 and got["o"] == units(o, w)


def replay(ck, exe, pairs):
    got = engine.run_cases(exe, [c for c, _ in pairs])
    bad = []
    for (c, x), g in zip(pairs, got):
        s = same(x, g, c["A"]["w"])
        if s is None:
            ck.skipped += 1
        elif s:
            ck.replayed += 1
        else:
            bad.append((c, x, g))
    again = engine.run_cases(exe, [c for c, _, _ in bad[:40]])
    for (c, x, g), g2 in zip(bad[:40], again):
        if same(x, g2, c["A"]["w"]) is False:
            ck.violation("ScriptEnum", c, x, g2, "behaviour of the specification not reproduced: " + show(c["s"]))
    for c, x in pairs[:: max(1, len(pairs) // 3)][:3]:
        ck.sample({"script": show(c["s"]), "expected": x[0] or show(x[1])})


def show(s):
    return "".join(chr(c) if c >= 32 else "\\x%02x" % (c if c >= 0 else -1 - c) for c in s)


def run(ck, families, lists, cases):
    """both directions"""
    box = {}

    def b():
        try:
            box["exe"] = harness()
        except Exception as e:
            box["err"] = e
    t = threading.Thread(target=b)
    t.start()
    pairs = enum_cases(ck, families, lists) if families else []
    t.join()
    if "err" in box:
        raise box["err"]
    exe = box["exe"]
    if pairs:
        replay(ck, exe, pairs)
    if cases:
        res = engine.run_cases(exe, cases)
        for c, r in list(zip(cases, res))[:: max(1, len(cases) // 3)][:3]:
            ck.sample({"script": show(c["s"]), "recorded": r})
        engine.judge(ck, "ScriptTrace", cases, res, exe=exe, describe=lambda v: {"error": v[0], "text": show(v[1])})
    ck.part("script", enumerated=len(pairs), recorded=len(cases))


def total(ck, exe, cases):
    """only that every call returns a text or a documented error"""
    res = engine.run_cases(exe, cases)
    for c, r in zip(cases, res):
        if len(ck.violations) >= 10:
            break
        if "notrun" in r:
            ck.skipped += 1
        elif "crash" in r or (r["ok"] == 0 and r["e"] not in ERR_OK):
            r2 = engine.run_cases(exe, [c])[0]
            if "crash" in r2 or (r2["ok"] == 0 and r2["e"] not in ERR_OK):
                ck.violation("total", c, "a text or a documented error", r2, "malformed script text")
    ck.part("malformed_text", calls=len(cases))
