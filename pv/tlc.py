"""Runs TLC and reads what it prints."""
import os, re, subprocess, tempfile, shutil
from .build import VERIF

JAR = "/opt/veriftools/tla/tla2tools.jar"


class ModelError(Exception):
    """TLC did not complete: an error of the check, not a verdict"""


_tok = re.compile(r'<<|>>|,|\[|\]|\|->|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_]\w*|\{|\}')


def parse_value(s):
    """the value of a TLC sequence/number/string/record"""
    toks = _tok.findall(s)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t in ("<<", "{"):
            end = ">>" if t == "<<" else "}"
            r = []
            while toks[pos] != end:
                r.append(val())
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return r
        if t == "[":
            r = {}
            while toks[pos] != "]":
                k = toks[pos]
                pos += 2
                r[k] = val()
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return r
        if t[0] == '"':
            return t[1:-1]
        if t == "TRUE":
            return True
        if t == "FALSE":
            return False
        return int(t) if re.match(r"-?\d+$", t) else t
    return val()


class Result:
    pass


def run(module, cfg=None, env=None, workers=8, heap="6g", timeout=800, extra=(), tag=None, coverage=False, raw=None):
    """Runs TLC on spec/<module>.tla; returns the printed tuples, the number of
    states, and how often every action was taken."""
    spec = os.path.join(VERIF, "spec")
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cp = JAR
    for j in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"):
        if os.path.exists(j):
            cp += ":" + j
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss16m", "-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(spec, (cfg or module) + ".cfg")]
    if coverage:
        cmd += ["-coverage", "60"]
    cmd += list(extra) + [os.path.join(spec, module + ".tla")]
    log = os.path.join(VERIF, "build", "tlc_%s_%s.log" % (tag or module, os.getpid()))
    os.makedirs(os.path.dirname(log), exist_ok=True)
    try:
        with open(log, "w") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=spec, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ModelError("TLC did not finish in %d s (%s)" % (timeout, log))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.log, r.rc, r.tuples, r.actions, r.raw = log, p.returncode, [], {}, []
    r.generated = r.distinct = 0
    r.violated = None
    act = re.compile(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)[^>]*>: (\d+):(\d+)")
    st = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left")
    buf = None
    with open(log, errors="replace") as f:
        for line in f:
            if raw and line.startswith(raw):
                r.raw.append(line)
                continue
            if buf is not None:
                buf += " " + line.strip()
                if buf.count("<<") <= buf.count(">>"):
                    r.tuples.append(buf)
                    buf = None
                continue
            if line.startswith("<<"):
                if line.count("<<") <= line.count(">>"):
                    r.tuples.append(line.strip())
                else:
                    buf = line.strip()
                continue
            m = act.match(line)
            if m:
                r.actions[m.group(1)] = int(m.group(4))
                continue
            m = st.match(line)
            if m:
                r.generated, r.distinct = int(m.group(1)), int(m.group(2))
                continue
            m = re.match(r"Error: (Invariant|Action property|Temporal properties|Property) ?(\S*)", line)
            if m and not r.violated:
                r.violated = line.strip()
    if p.returncode != 0:
        tail = "".join(l for l in open(log, errors="replace").readlines()[-40:])
        raise ModelError("TLC ended with %d (%s)\n%s" % (p.returncode, r.violated or "", tail[-3000:]))
    try:
        os.remove(log)
    except OSError:
        pass
    return r
