"""Arrangement graphs generated by TLC from SegShape.tla, and walks over them."""
import re
from collections import deque


class Graph:
    """States: arrangement strings.  edges[s][(name, p)] = (next, blocks obtained)."""

    def __init__(self, S, B, N):
        self.S, self.B, self.N = S, B, N
        self.edges = {}
        self.size = {}
        self.gen = self.dis = 0

    @staticmethod
    def cfg(S, B, N):
        return ("SPECIFICATION Spec\nINVARIANTS TreeOK HeightBound AllocBound\nPROPERTY SizeOK\nCHECK_DEADLOCK FALSE\n"
                "CONSTANTS\n S = %d\n B = %d\n MaxN = %d\n Emit = TRUE\n" % (S, B, N))

    def parse(self, out):
        for m in re.finditer(r'^"E;([^;]*);(\w+);(\d+);([^;]*);(\d+);(\d+)"', out, re.M):
            a, name, p, b, al, n = m.groups()
            self.edges.setdefault(a, {})[(name, int(p))] = (b, int(al))
            self.edges.setdefault(b, {})
            self.size[a] = int(n)
        for a, es in self.edges.items():
            for (name, p), (b, _) in es.items():
                if b not in self.size:
                    self.size[b] = self.size[a] + (1 if name == "ins" else -1)
        self.start = "00"
        # breadth-first tree from the empty container
        self.path = {self.start: ()}
        q = deque([self.start])
        self.order = []
        while q:
            a = q.popleft()
            self.order.append(a)
            for k in self.edges[a]:
                b = self.edges[a][k][0]
                if b not in self.path:
                    self.path[b] = (a, k)
                    q.append(b)
        return self

    def path_to(self, s):
        r = []
        while self.path[s]:
            a, k = self.path[s]
            r.append(k)
            s = a
        return r[::-1]

    def count(self):
        return sum(len(e) for e in self.edges.values())

    def nearest(self, s, todo):
        """Shortest sequence of calls from s to a state with open work."""
        if todo.get(s):
            return s, []
        seen = {s: None}
        q = deque([s])
        while q:
            a = q.popleft()
            for k, (b, _) in self.edges[a].items():
                if b in seen:
                    continue
                seen[b] = (a, k)
                if todo.get(b):
                    r = []
                    x = b
                    while seen[x]:
                        r.append(seen[x][1])
                        x = seen[x][0]
                    return b, r[::-1]
                q.append(b)
        return None, None

    def cover(self, length, rng=None):
        """Walks from the empty container that together take every transition:
        lists of (state, call, next)."""
        todo = {s: list(es) for s, es in self.edges.items()}
        if rng:
            for es in todo.values():
                rng.shuffle(es)
        left = self.count()
        walks = []
        while left:
            s, w = self.start, []
            while left and len(w) < length:
                b, path = self.nearest(s, todo)
                if b is None:
                    break
                for k in path:
                    nx = self.edges[s][k][0]
                    w.append((s, k, nx))
                    s = nx
                k = todo[s].pop()
                left -= 1
                nx = self.edges[s][k][0]
                w.append((s, k, nx))
                s = nx
            if not w:
                break
            walks.append(w)
        return walks


def build(run, specs, pool=None):
    """specs: list of (S, B, N).  Generates all graphs in parallel with TLC."""
    def one(spec):
        S, B, N = spec
        rc, out, gen, dis = run.tlc("SegShape", Graph.cfg(S, B, N), "shape_%d_%d_%d" % spec, workers=1, heap="2g")
        if rc != 0 or "No error has been found" not in out:
            from vlib import CheckError
            raise CheckError("SegShape %s: %s" % (spec, out[-2000:]))
        g = Graph(S, B, N).parse(out)
        g.gen, g.dis = gen, dis
        return g
    futs = [run.pool.submit(one, s) for s in specs]
    gs = [f.result() for f in futs]
    for s, g in zip(specs, gs):
        run.states += g.dis
        run.transitions += g.gen
        run.models.append(dict(module="SegShape", config="S=%d B=%d MaxN=%d" % s, states=g.dis, transitions=g.gen))
    return gs
