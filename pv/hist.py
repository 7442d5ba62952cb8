"""The history family of checks: a specification of a pool of objects is
explored with TLC, every step printed; the steps are strung together to
histories that are replayed on the real code (direction A); random histories
of the real code are recorded and judged by TLC (direction B)."""
import collections, json, os, threading
from . import engine, build, tlc
from .engine import dumps


def key(x):
    return json.dumps(x, separators=(",", ":"), sort_keys=True)


def explore(ck, module, cfg=None, env=None, prefix='"E', heap="8g", timeout=700):
    """[(source, op, result, target)] as JSON texts/values: every step of the
    state machine"""
    r = tlc.run(module, cfg, env, heap=heap, timeout=timeout, raw=prefix)
    ck.note_tlc(r)
    edges = []
    for l in sorted(r.raw):
        src, op, res, dst = json.loads(json.loads(l)[1:])
        edges.append((key(src), op, res, key(dst)))
    if not edges:
        raise tlc.ModelError(module + ": no steps were printed")
    return edges


class Graph:
    def __init__(self, edges, init):
        self.out = collections.defaultdict(list)
        for n, e in enumerate(edges):
            self.out[e[0]].append(n)
        self.edges = edges
        self.init = key(init)
        if self.init not in self.out:
            raise tlc.ModelError("the first state is not among the printed ones")
        # shortest way from the beginning to every state
        self.path = {self.init: []}
        todo = collections.deque([self.init])
        while todo:
            x = todo.popleft()
            for n in self.out[x]:
                d = edges[n][3]
                if d not in self.path:
                    self.path[d] = self.path[x] + [n]
                    todo.append(d)

    def unreachable(self):
        return [s for s in self.out if s not in self.path]

    def walks(self, rng, length, extra=0):
        """lists of edge numbers, from the beginning, that together take every
        edge; then `extra` random ones"""
        if self.unreachable():
            raise tlc.ModelError("printed steps are not connected")
        left = set(n for n in range(len(self.edges)) if self.edges[n][0] in self.path)
        open_ = {s: [n for n in ns] for s, ns in self.out.items() if s in self.path}
        for ns in open_.values():
            rng.shuffle(ns)
        order = sorted(left)
        rng.shuffle(order)
        res = []

        def nearest(at):
            """edges to the nearest state with an edge that is left"""
            back = {at: None}
            todo = collections.deque([at])
            while todo and len(back) < 400:
                x = todo.popleft()
                for e in self.out[x]:
                    d = self.edges[e][3]
                    if d in back:
                        continue
                    back[d] = e
                    while open_.get(d) and open_[d][-1] not in left:
                        open_[d].pop()
                    if open_.get(d):
                        p = []
                        while back[d] is not None:
                            p.append(back[d])
                            d = self.edges[back[d]][0]
                        return p[::-1]
                    todo.append(d)
            return None

        def extend(w, at, n):
            while len(w) < n:
                c = open_.get(at)
                while c and c[-1] not in left:
                    c.pop()
                if c:
                    p = [c.pop()]
                else:
                    p = nearest(at)
                    if not p or len(w) + len(p) > n:
                        break
                w += p
                left.difference_update(p)
                at = self.edges[p[-1]][3]
            return w
        for e in order:
            if e not in left:
                continue
            w = list(self.path[self.edges[e][0]]) + [e]
            left.difference_update(w)
            res.append(extend(w, self.edges[e][3], max(length, len(w))))
        for _ in range(extra):
            w, at = [], self.init
            while len(w) < length and self.out[at]:
                e = rng.choice(self.out[at])
                w.append(e)
                at = self.edges[e][3]
            res.append(w)
        return res


def compare(ck, module, exe, cases, expects, differs):
    """differs(expected, got, case) -> None or what differs"""
    got = engine.run_cases(exe, cases)
    bad = []
    for c, x, g in zip(cases, expects, got):
        if "notrun" in g:
            ck.skipped += 1
            continue
        d = g["crash"] if "crash" in g else differs(x, g, c)
        if d:
            bad.append((c, x, g, d))
        else:
            ck.replayed += 1
    again = engine.run_cases(exe, [b[0] for b in bad[:20]])
    for (c, x, g, d), g2 in zip(bad[:20], again):
        if "notrun" in g2:
            continue
        d2 = g2["crash"] if "crash" in g2 else differs(x, g2, c)
        if d2:
            ck.violation(module, c, "a behaviour of the specification", d2, "behaviour of the specification not reproduced")
    return got


def first_difference(keys_of):
    """a `differs` that compares step by step the parts the specification
    determines; keys_of(step of the real code) gives them"""
    def f(expected, got, case):
        for n, (x, g) in enumerate(zip(expected, got)):
            k = keys_of(g)
            if k != x:
                return "step %d %s: expected %s got %s" % (n + 1, dumps(case["ops"][n]), dumps(x)[:300], dumps(k)[:300])
        return None
    return f


def with_build(names, main, job):
    """builds while job runs; (program, result of job)"""
    box = {}

    def b():
        try:
            box["exe"] = build.build(names, main)
        except Exception as e:
            box["err"] = e
    t = threading.Thread(target=b)
    t.start()
    r = job()
    t.join()
    if "err" in box:
        raise box["err"]
    return box["exe"], r
