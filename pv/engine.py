"""Common machinery of the checks: running the harness, comparing, judging
recorded traces with TLC, reporting."""
import json, os, subprocess, sys, tempfile, time, threading, concurrent.futures as cf, random, shutil
from . import build, tlc
from .build import VERIF

CASE_TIMEOUT = 20  # seconds of processor time for one case
# a shard is given up after so many stops of the process: the code is broken
# there, which the stops show, and the remaining cases are left unjudged
MAX_HANGS, MAX_CRASHES = 2, 150
hung = []  # runs in which something hung: later ones are given up sooner
NOT_RUN = {"crash": "not run", "notrun": 1}


class HarnessError(Exception):
    pass


def dumps(x):
    return json.dumps(x, separators=(",", ":"))


def _run_shard(exe, path, lo, n, env):
    """run the cases lo.. of the file; {case: result or {"crash":...}}"""
    res = {}
    i = hangs = crashes = 0
    while i < n:
        if hangs >= (1 if hung else MAX_HANGS) or crashes >= MAX_CRASHES:
            for k in range(i, n):
                res[lo + k] = NOT_RUN
            break
        p = subprocess.Popen([exe, path, str(i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        err = []

        def drain():
            err.append(p.stderr.read())
        t = threading.Thread(target=drain, daemon=True)
        t.start()
        state = {"last": time.time(), "killed": False}

        def watch():
            mark, used = None, 0
            while p.poll() is None:
                if mark != state["last"]:
                    mark, used = state["last"], cpu(p.pid)
                if cpu(p.pid) - used > CASE_TIMEOUT or time.time() - mark > 5 * CASE_TIMEOUT:
                    state["killed"] = True
                    p.kill()
                    return
                time.sleep(0.25)
        w = threading.Thread(target=watch, daemon=True)
        w.start()
        cur, ended = None, False
        for line in p.stdout:
            state["last"] = time.time()
            if not line.endswith(b"\n"):  # cut off by the end of the process
                break
            if line.startswith(b"@"):
                cur = int(line[1:])
            elif line.startswith(b"="):
                a, b = line[1:].split(b" ", 1)
                res[lo + int(a)] = json.loads(b)
                cur = None
                i = int(a) + 1
            elif line.startswith(b"END"):
                ended = True
        p.wait()
        t.join(5)
        if ended and p.returncode == 0:
            break
        msg = (err[0] if err else b"").decode(errors="replace")
        if p.returncode == 3:
            raise HarnessError("harness: " + msg[-2000:])
        if ended:  # everything was run, but leaving failed (leak, destruction)
            res[lo + n - 1] = {"crash": "at exit: " + summary(msg)}
            break
        if state["killed"]:
            hangs += 1
        else:
            crashes += 1
        if cur is None:
            if state["killed"]:  # killed just when a slow case had come to its end
                continue
            raise HarnessError("harness stopped between cases: %s %s" % (p.returncode, msg[-2000:]))
        res[lo + cur] = {"crash": ("hang" if state["killed"] else "crash: " + summary(msg)), "detail": msg[-3000:]}
        i = cur + 1
    return res


def cpu(pid):
    """processor seconds used by a process"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rpartition(")")[2].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0


def summary(msg):
    for l in msg.splitlines():
        if "SUMMARY:" in l or "runtime error:" in l or "terminate called" in l or "Assertion" in l:
            return l.strip()[:300]
    return msg.strip()[:300] or "abnormal termination"


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=2500",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C", LANG="C", TZ="UTC")


def run_cases(exe, cases, shards=8, env=None):
    """run all cases on the real code; list of results"""
    if not cases:
        return []
    d = tempfile.mkdtemp(prefix="cases_")
    try:
        n = len(cases)
        shards = max(1, min(shards, n // 50 + 1))
        step = (n + shards - 1) // shards
        jobs = []
        for k in range(shards):
            part = cases[k * step:(k + 1) * step]
            if not part:
                continue
            p = os.path.join(d, "c%d" % k)
            with open(p, "w") as f:
                for c in part:
                    f.write(dumps(c) + "\n")
            jobs.append((p, k * step, len(part)))
        out = {}
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            for r in ex.map(lambda j: _run_shard(exe, *j, env or ENV), jobs):
                out.update(r)
        if any(isinstance(r, dict) and r.get("crash") == "hang" for r in out.values()):
            hung.append(1)
        return [out[i] for i in range(n)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Check:
    """One run of one check"""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.states = self.transitions = self.traces = self.replayed = self.skipped = 0
        self.samples, self.violations, self.known = [], [], []
        self.actions = {}
        self.parts = {}
        self.assumptions = []
        self.exhaustive = []
        self.findings = load_findings(prop)
        self.lock = threading.Lock()

    # ---------------------------------------------------------- bookkeeping
    def note_tlc(self, r):
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            for a, n in r.actions.items():
                self.actions[a] = self.actions.get(a, 0) + n

    def acts(self, names):
        for a in names:
            self.actions[a] = self.actions.get(a, 0) + 1

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def part(self, name, **kw):
        self.parts[name] = kw

    def violation(self, kind, case, expected, got, what=""):
        key = dumps(case)
        for f in self.findings:
            if f["case"] in (key, kind):
                if f not in self.known:
                    self.known.append(f)
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%d_%d.json" % (self.prop, os.getpid(), len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "kind": kind, "what": what, "case": case, "expected": expected, "got": got}, f, indent=1)
        self.violations.append((p, kind, expected, got))

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces + self.replayed,
                           "recorded_traces_judged_by_tlc": self.traces,
                           "spec_behaviours_replayed_on_code": self.replayed,
                           "not_judged": self.skipped,
                           "samples": self.samples, "exhaustive": self.exhaustive,
                           "spec_action_coverage": self.actions, "parts": self.parts},
              "assumptions": self.assumptions, "violations": len(self.violations),
              "wall_s": round(time.time() - self.t0, 1)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["text"]))
        for p, kind, e, g in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  %s expected %s got %s" % (kind, str(e)[:300], str(g)[:300]))
        print("%s: %d states, %d spec behaviours replayed, %d traces judged, %d not judged, %d violations, %.1f s"
              % (self.prop, self.states, self.replayed, self.traces, self.skipped, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def load_findings(prop):
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2].strip()
                case, _, text = rest.partition(" | ")
                r.append({"case": case, "text": text})
    return r


def judge(ck, module, cases, results, exe=None, cfg=None, chunk=6000, encode=None, describe=None, rec_of=None, heap="8g"):
    """Every recorded execution becomes a trace that TLC accepts or rejects.
    Crashes are rejected without asking."""
    idx = []
    for i, (c, r) in enumerate(zip(cases, results)):
        if "notrun" in r:
            ck.skipped += 1
        elif "crash" in r:
            ck.violation(module, c, "a result", r["crash"], "the real code did not return")
        else:
            idx.append(i)
    bad = []
    for lo in range(0, len(idx), chunk):
        part = idx[lo:lo + chunk]
        verdicts, res = ask(ck, module, cfg, [rec(cases[i], results[i], rec_of) for i in part], heap)
        for k, i in enumerate(part):
            v = verdicts.get(k + 1)
            if v is None:
                raise tlc.ModelError("%s: record %d was not judged: %s" % (module, k + 1, dumps(cases[i])[:1000]))
            if v[0] == 1:
                ck.traces += 1
            elif v[0] == 2:
                ck.skipped += 1
            else:
                bad.append((i, v[1:]))
    if bad:
        # a rejection counts when the execution and the verdict repeat
        again = [cases[i] for i, _ in bad[:40]]
        rr = run_cases(exe, again) if exe else [results[i] for i, _ in bad[:40]]
        ok = [k for k, r in enumerate(rr) if "crash" not in r]
        v2, _ = ask(ck, module, cfg, [rec(again[k], rr[k], rec_of) for k in ok], heap) if ok else ({}, None)
        pos = {k: n + 1 for n, k in enumerate(ok)}
        for k, (i, exp) in enumerate(bad[:40]):
            if "notrun" in rr[k]:
                continue
            if k not in pos or v2[pos[k]][0] == 0:
                ck.violation(module, cases[i], describe(exp) if describe else exp, results[i], "recorded execution rejected by the specification")
    return bad


def rec(case, result, rec_of=None):
    if rec_of:
        return rec_of(case, result)
    r = dict(case)
    r["r"] = result
    return r


def ask(ck, module, cfg, recs, heap="8g"):
    fd, p = tempfile.mkstemp(prefix="trace_", suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for r in recs:
            f.write(dumps(r) + "\n")
    try:
        res = tlc.run(module, cfg, {"TRACE": p}, heap=heap)
    finally:
        os.remove(p)
    ck.note_tlc(res)
    out = {}
    for t in res.tuples:
        v = tlc.parse_value(t)
        if v and v[0] == "V":
            ck.acts(v.pop())   # the last element: names of the actions taken
            if v[1] in out and out[v[1]] != v[2:]:
                # a trace with several explanations is accepted if one of them is
                if v[2] == 1:
                    out[v[1]] = v[2:]
            else:
                out[v[1]] = v[2:]
    return out, res
