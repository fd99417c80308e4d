"""Whole-container graphs generated by TLC from MCSeq.tla, and scripts that take
every transition on the real container."""
import ast
import re

import shapes


def tup(s):
    return ast.literal_eval(s.replace("<<", "[").replace(">>", "]"))


class Graph(shapes.Graph):
    def __init__(self, slots, held, traits, labels):
        self.slots, self.held, self.traits, self.labels = slots, held, traits, labels
        self.edges, self.size, self.info = {}, {}, {}

    def cfgtext(self):
        return ("SPECIFICATION Spec\nINVARIANTS ItsOK DeadEmpty LabelsOK CallsOK\nCHECK_DEADLOCK FALSE\nCONSTANTS\n KeyDiv = 100\n NSlots = %d\n NHeld = %d\n"
                " Traits = %d\n Labels = {%s}\n Emit = TRUE\n" % (self.slots, self.held, self.traits, ",".join(map(str, self.labels))))

    def parse(self, out):
        for m in re.finditer(r'^"E;([^;]*);(\w+);([^;]*);(\d+);([^;]*);([^;"]*)"', out, re.M):
            a, op, args, ln, b, free = m.groups()
            k = (op, tuple(tup(args)), int(ln))
            self.edges.setdefault(a, {})[k] = (b, 0)
            self.edges.setdefault(b, {})
            if free != "{}":
                self.info[a, k] = [int(x) for x in free.strip("{}").split(",")]
        self.start = min(self.edges, key=len)
        return self


def build(run, specs):
    """specs: (slots, held, traits, labels)"""
    def one(spec):
        g = Graph(*spec)
        tag = "whole_%d_%d_%d_%d" % (spec[0], spec[1], spec[2], len(spec[3]))
        rc, out, gen, dis = run.tlc("MCSeq", g.cfgtext(), tag, workers=1, heap="3g")
        if rc != 0 or "No error has been found" not in out:
            from vlib import CheckError
            raise CheckError("MCSeq %s: %s" % (spec, out[-2000:]))
        g.parse(out)
        g.gen, g.dis = gen, dis
        return g
    gs = list(run.pool.map(one, specs))
    for s, g in zip(specs, gs):
        run.states += g.dis
        run.transitions += g.gen
        run.models.append(dict(module="MCSeq", config="NSlots=%d NHeld=%d Traits=%d Labels=%s" % s, states=g.dis, transitions=g.gen))
    return gs


class Walk:
    """Runs model transitions on real containers: a model size of two stands
    for two or more real elements."""

    def __init__(self, gen, rng):
        self.g, self.r = gen, rng
        self.n = {}
        self.h = {}

    def many(self):
        return self.r.choice([2, 3, 5, 8, 9, 13])

    def drop(self, s):
        self.h = {k: v for k, v in self.h.items() if v != s}

    def step(self, k, free):
        op, a, ln = k
        g, r, n = self.g, self.r, self.n
        L = []
        two = lambda s: "0" if s == 0 else "-1"
        if op in ("mk",):
            L.append("mk %d %d" % a)
            n[a[0]] = 0
        elif op == "mkr":
            c = 1 if ln == 1 else self.many()
            L.append("mkr %d %d %d : %s" % (a[0], a[1], r.randrange(5), g.vs(c)))
            n[a[0]] = c
        elif op in ("cpc", "cpca", "mvc", "mvca"):
            L.append("%s %s" % (op, " ".join(map(str, a))))
            n[a[0]] = n[a[1]]
            if op[0] == "m":
                n[a[1]] = 0
                if free:
                    self.drop(a[1])
                else:
                    self.h = {x: a[0] if y == a[1] else y for x, y in self.h.items()}
        elif op in ("cpa", "mva"):
            L.append("%s %d %d" % ((op,) + a))
            if a[0] != a[1]:
                self.drop(a[0])
                n[a[0]] = n[a[1]]
                if op == "mva":
                    n[a[1]] = 0
                    if free:
                        self.drop(a[1])
                    else:
                        self.h = {x: a[0] if y == a[1] else y for x, y in self.h.items()}
        elif op == "swp":
            L.append("swp %d %d %d" % a)
            s, o = a[0], a[1]
            n[s], n[o] = n[o], n[s]
            self.h = {x: o if y == s else s if y == o else y for x, y in self.h.items()}
        elif op == "spl":
            s, p, o, f = a
            L.append("spl %d %s %d %d %d" % (s, two(p), o, f, r.choice([0, 1, 2, 5])))
            n[s] += n[o]
            n[o] = 0
            self.drop(s)
            self.drop(o)
        elif op == "sp1":
            s, p, o, q, _ = a
            L.append("sp1 %d %s %d %s %d %d" % (s, two(p), o, two(q), r.randrange(2), r.choice([0, 1, 2, 5])))
            n[s] += 1
            n[o] -= 1
            self.drop(s)
            self.drop(o)
            if n[o] > 1:
                L.append("err %d 1 -1 0" % o)
                n[o] = 1
        elif op == "spr":
            s, p, o, q1, q2, _ = a
            m = n[o]
            if m <= 1:
                x, y = q1, q2
            else:
                mid = m - 1 if (q1, q2) == (0, 1) else 1 if (q1, q2) == (1, 2) else r.randrange(1, m)
                x, y = [{0: 0, 1: mid, 2: m}[v] for v in (q1, q2)]
            L.append("spr %d %s %d %d %d %d %d" % (s, two(p), o, x, y, r.randrange(2), r.choice([0, 1, 2, 5])))
            n[s] += y - x
            n[o] -= y - x
            self.drop(s)
            self.drop(o)
        elif op == "mrg":
            s, o, f, _ = a
            L += ["srt %d 0" % s, "srt %d 0" % o, "mrg %d %d %d 0" % (s, o, f)]
            n[s] += n[o]
            n[o] = 0
            self.drop(s)
            self.drop(o)
        elif op == "inss":
            s, p, o, _, _ = a
            L.append("inss %d %s %d 0 -1 %d" % (s, two(p), o, r.choice([0, 1, 2, 5])))
            n[s] += n[o]
            self.drop(s)
        elif op == "insr":
            s = a[0]
            c = 1 if n[s] == 0 else self.many() - 1
            L.append("insr %d -1 %d 0 : %s" % (s, r.randrange(5), g.vs(c)))
            n[s] += c
            self.drop(s)
        elif op == "err":
            s = a[0]
            if n[s] == 1:
                L.append(r.choice(["err %d 0 -1 0", "pop %d 0", "pop %d 1", "er %d 0 0"]) % s)
                n[s] = 0
            else:
                L.append("err %d 1 -1 0" % s)
                n[s] = 1
            self.drop(s)
        elif op == "clr":
            L.append(r.choice(["clr %d", "res %d 0", "asn %d 0 0"]) % a[0])
            n[a[0]] = 0
            self.drop(a[0])
        elif op == "dt":
            L.append("dt %d" % a[0])
            n.pop(a[0])
            self.drop(a[0])
        elif op == "hold":
            L.append("hold %d %d %s" % (a[0], a[1], two(a[2])))
            self.h[a[0]] = a[1]
        elif op in ("eh", "ih"):
            s = self.h[a[0]]
            L.append("eh %d" % a[0] if op == "eh" else "ih %d %d" % (a[0], g.v()))
            n[s] += 1 if op == "ih" else -1
            self.drop(s)
            if op == "eh" and n[s] > 1:
                L.append("err %d 1 -1 0" % s)
                n[s] = 1
        else:
            raise KeyError(op)
        for s in free:
            L.append("clr %d" % s)
            n[s] = 0
        if op in ("cpc", "cpca", "mvc", "mvca", "cpa", "mva", "swp"):
            L += ["chk %d" % x for x in self.h]
        for s in list(n):
            if n[s] > 26 and s not in self.h.values():
                L.append("err %d 9 -1 0" % s)
                n[s] = 9
        return L


def histories(graph, gen, rng, length=120, probe=None):
    """probe(slot): lines to run on a live container after a call"""
    out = []
    for w in graph.cover(length, rng):
        k = Walk(gen, rng)
        h = []
        for s, call, _ in w:
            h += k.step(call, graph.info.get((s, call), []))
            if probe:
                for x in k.n:
                    h += probe(x)
        out.append(h)
    return out
