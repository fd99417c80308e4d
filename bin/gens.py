"""Seeded script generators.  The scripts only choose calls; what each call
must do is decided by the specification when the recorded trace is judged."""


class Gen:
    def __init__(self, rng, keys=8, tags=100):
        self.rng = rng
        self.tags = tags
        self.keys = keys
        self.tag = 0
        self.pos = 0

    def v(self):
        self.tag = (self.tag + 1) % self.tags
        return self.rng.randrange(self.keys) * 100 + self.tag

    def vs(self, n):
        return " ".join(str(self.v()) for _ in range(n))

    def p(self):
        """positions: ends, a wandering cluster, anywhere"""
        r = self.rng.random()
        if r < 0.18:
            return 0
        if r < 0.36:
            return -1
        if r < 0.6:
            self.pos += self.rng.choice([-2, -1, 0, 0, 1, 1, 2])
            return self.pos
        self.pos = self.rng.randrange(0, 400)
        return self.pos

    def way(self):
        return self.rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10])

    def count(self, big=12):
        r = self.rng.random()
        if r < 0.12:
            return 0
        if r < 0.5:
            return self.rng.randrange(1, 4)
        return self.rng.randrange(1, big)

    # -- single calls on slot s -------------------------------------------
    def single_in(self, s=1):
        r = self.rng.random()
        if r < 0.72:
            return "ins %d %d %d %d %d" % (s, self.p(), self.rng.randrange(5), self.v(), self.way())
        return "push %d %d %d" % (s, self.rng.randrange(6), self.v())

    def single_out(self, s=1):
        r = self.rng.random()
        if r < 0.75:
            return "er %d %d %d" % (s, self.p(), self.way())
        return "pop %d %d" % (s, self.rng.randrange(2))

    def bulk(self, s=1, big=12, grow=0.5):
        r = self.rng.random()
        if r < grow:
            k = self.rng.randrange(4)
            if k == 0:
                return "insn %d %d %d %d %d" % (s, self.p(), self.count(big), self.v(), self.way())
            if k == 1:
                return "insr %d %d %d %d : %s" % (s, self.p(), self.rng.randrange(5), self.way(), self.vs(self.count(big)))
            if k == 2:
                return "res %d %d" % (s, self.rng.randrange(3 * big))
            return "resv %d %d %d" % (s, self.rng.randrange(3 * big), self.v())
        k = self.rng.random()
        if k < 0.7:
            if self.rng.random() < 0.2:
                # (nearly) everything, or everything up to or from somewhere
                a, b = self.rng.choice([(0, -1), (0, -2), (1, -1), (1, -2), (2, -3), (0, -4), (0, self.rng.randrange(400)), (self.rng.randrange(400), -1)])
                return "err %d %d %d %d" % (s, a, b, self.way())
            a = self.rng.randrange(400)
            return "err %d %d %d %d" % (s, a, a + self.rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34]), self.way())
        if k < 0.78:
            return "asn %d %d %d" % (s, self.count(2 * big), self.v())
        if k < 0.9:
            return "asr %d %d : %s" % (s, self.rng.randrange(6), self.vs(self.count(2 * big)))
        return "clr %d" % s


def singles(rng, events, top=40, keys=8):
    """Grows and shrinks one container by single edits."""
    g = Gen(rng, keys)
    out = ["mk 1 10"]
    size = 0
    goal = rng.randrange(2, top)
    while len(out) < events:
        if size == goal:
            goal = rng.choice([0, 1, 2, rng.randrange(top), rng.randrange(top)])
        up = rng.random() < (0.8 if size < goal else 0.2)
        if size == 0:
            up = True
        out.append(g.single_in() if up else g.single_out())
        size += 1 if up else -1
    return out


def bulks(rng, events, big=12, keys=8, slots=1):
    g = Gen(rng, keys)
    out = []
    mk = rng.randrange(5)
    if mk == 0:
        out.append("mkn 1 10 %d %d" % (g.count(3 * big), g.v()))
    elif mk == 1:
        out.append("mkd 1 10 %d" % g.count(3 * big))
    elif mk == 2:
        out.append("mkr 1 10 %d : %s" % (rng.randrange(5), g.vs(g.count(3 * big))))
    elif mk == 3:
        out.append("mkz 1")
    else:
        out.append("mk 1 10")
    out.append("mkr 2 10 1 : %s" % g.vs(g.count(2 * big)))
    while len(out) < events:
        r = rng.random()
        if r < 0.12:
            out.append(g.single_in())
        elif r < 0.24:
            out.append(g.single_out())
        elif r < 0.30:
            out.append("inss 1 %d 2 %d %d %d" % (g.p(), rng.randrange(60), rng.randrange(60), g.way()))
        else:
            out.append(g.bulk(1, big, 0.55))
    return out


def mixed(rng, events, traits=0, big=10, keys=6, fail=0.0, slots=3, labels=None, probes=0.0, algo=True, alias=True, tags=100):
    """Everything on several containers.  Calls that do not apply (a dead slot,
    an empty container) are skipped by the harness."""
    g = Gen(rng, keys, tags)
    pocs, eq = traits & 4, traits & 8
    if labels is None:
        labels = [10, 11, 20, 21, 30] if (pocs or eq) else [10, 10, 11, 12, 20, 21]
    lab = lambda: rng.choice(labels)
    sl = lambda: rng.randrange(1, slots + 1)

    def two():
        a = sl()
        b = sl()
        while b == a:
            b = sl()
        return a, b
    out = ["mk %d %d" % (s, lab()) for s in range(1, slots)]
    while len(out) < events:
        r = rng.random()
        s = sl()
        f = None
        if fail and rng.random() < fail:
            f = "F %d %d" % (rng.choice([1, 2, 3, 3, 4, 6]), rng.choice([1, 1, 2, 3, 4, 6, 9, 14]))
        line = None
        if r < 0.22:
            line = g.single_in(s)
        elif r < 0.36:
            line = g.single_out(s)
        elif r < 0.54:
            line = g.bulk(s, big)
        elif r < 0.66:
            k = rng.randrange(10)
            a, b = two()
            if k == 0:
                line = "mk %d %d" % (a, lab())
            elif k == 1:
                line = "mkn %d %d %d %d" % (a, lab(), g.count(big), g.v())
            elif k == 2:
                line = "mkr %d %d %d : %s" % (a, lab(), rng.randrange(5), g.vs(g.count(big)))
            elif k == 3:
                line = "cpc %d %d" % (a, b)
            elif k == 4:
                line = "cpca %d %d %d" % (a, b, lab())
            elif k == 5:
                line = "mvc %d %d" % (a, b)
            elif k == 6:
                line = "mvca %d %d %d" % (a, b, lab())
            elif k == 7:
                line = "mkd %d %d %d" % (a, lab(), g.count(big))
            elif k == 8:
                line = "mkz %d" % a
            else:
                line = "dt %d" % a
        elif r < 0.76:
            a, b = two()
            k = rng.randrange(4)
            if k == 0:
                line = "cpa %d %d" % (a, b if rng.random() < 0.9 else a)
            elif k == 1:
                line = "mva %d %d" % (a, b)
            elif k == 2:
                line = "swp %d %d %d" % (a, b if rng.random() < 0.9 else a, rng.randrange(2))
            else:
                line = "inss %d %d %d %d %d %d" % (a, g.p(), b, rng.randrange(40), rng.randrange(40), g.way())
        elif r < 0.88:
            a, b = two()
            k = rng.randrange(4)
            if k == 0:
                line = "spl %d %d %d %d %d" % (a, g.p(), b, rng.randrange(2), g.way())
            elif k == 1:
                line = "sp1 %d %d %d %d %d %d" % (a, g.p(), b, rng.randrange(40), rng.randrange(2), g.way())
            elif k == 2:
                line = "spr %d %d %d %d %d %d %d" % (a, g.p(), b, rng.randrange(40), rng.randrange(40), rng.randrange(2), g.way())
            elif algo:
                c = rng.randrange(3)
                out.append("srt %d %d" % (a, c))
                out.append("srt %d %d" % (b, c))
                line = "mrg %d %d %d %d" % (a, b, rng.randrange(2), c)
        elif r < 0.95 and algo:
            k = rng.randrange(6)
            line = ["rem %d %d" % (s, g.v()), "remif %d %d %d" % (s, rng.choice([2, 3]), rng.randrange(2)),
                    "uni %d %d" % (s, rng.randrange(4)), "rev %d" % s, "srt %d %d" % (s, rng.randrange(3)),
                    "cmp %d %d" % (s, sl())][k]
        elif r < 0.98 and alias:
            k = rng.randrange(4)
            q = rng.randrange(60)
            line = ["insa %d %d %d %d %d" % (s, g.p(), rng.randrange(6), q, g.way()),
                    "insna %d %d %d %d %d" % (s, g.p(), g.count(big), q, g.way()),
                    "resa %d %d %d" % (s, rng.randrange(2 * big), q), "asna %d %d %d" % (s, rng.randrange(2 * big), q)][k]
        elif rng.random() < probes:
            line = "%s %d" % (rng.choice(["idx", "its", "seg"]), s)
        else:
            k = rng.randrange(4)
            h = rng.randrange(1, 5)
            line = ["hold %d %d %d" % (h, s, rng.randrange(60)), "chk %d" % h, "eh %d" % h, "ih %d %d" % (h, g.v())][k]
        if line:
            if f:
                out.append(f)
            out.append(line)
    return out
