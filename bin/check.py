#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree."""
import os
import random
import re
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gens
import shapes
import vlib
import whole as wholes
from vlib import Cfg, CheckError, Run, Violation

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


# ------------------------------------------------------------------ helpers
def chunks(hist, lines):
    """Split histories into shards of about this many lines."""
    out, cur, n = [], [], 0
    for h in hist:
        cur.append(h)
        n += len(h)
        if n >= lines:
            out.append(cur)
            cur, n = [], 0
    if cur:
        out.append(cur)
    return out


def jobs_for(cfg, hist, groups, opts=("tree",), lines=9000, **kw):
    return [dict(cfg=cfg, histories=h, groups=groups, opts=opts, **kw) for h in chunks(hist, lines)]


WAYS = [0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10]


def call_line(k, n, g, rng, way=None):
    """A concrete call for a transition ("ins"|"er", p) of an arrangement graph."""
    name, p = k
    w = rng.choice([0, 1, 2, 3, 4, 5, 7]) if way is None else way
    if name == "ins":
        if p == n and rng.random() < 0.3:
            return "push 1 %d %d" % (rng.randrange(3), g.v())
        if p == 0 and rng.random() < 0.3:
            return "push 1 %d %d" % (3 + rng.randrange(3), g.v())
        return "ins 1 %d %d %d %d" % (p, rng.choice([0, 1, 2, 3]), g.v(), w)
    if p == n - 1 and rng.random() < 0.25:
        return "pop 1 0"
    if p == 0 and rng.random() < 0.25:
        return "pop 1 1"
    return "er 1 %d %d" % (p, w)


def plain(k, g):
    return "ins 1 %d 2 %d 0" % (k[1], g.v()) if k[0] == "ins" else "er 1 %d 0" % k[1]


def walk_histories(graph, rng, length=150, way=None):
    """Every transition of the graph as judged calls."""
    g = gens.Gen(rng)
    out = []
    for w in graph.cover(length, rng):
        out.append(["mk 1 10"] + [call_line(k, graph.size[s], g, rng, way) for s, k, _ in w])
    return out


def at_states(graph, rng, per_state, length=400, states=None, fresh=True):
    """per_state(state, size) gives groups of lines to run on that arrangement;
    the arrangement is rebuilt silently before each group."""
    g = gens.Gen(rng)
    out, cur = [], []
    for s in states if states is not None else graph.order:
        build = ["Q 1"] + ["clr 1"] + [plain(k, g) for k in graph.path_to(s)] + ["Q 0", "snap"]
        for grp in per_state(s, graph.size[s], g):
            if not cur:
                cur = ["mk 1 10"]
            cur += build + grp
            if len(cur) > length:
                out.append(cur)
                cur = []
    if cur:
        out.append(cur)
    return out


def pick(rng, xs, k):
    xs = list(xs)
    return xs if len(xs) <= k else rng.sample(xs, k)


BASIC = ["contents", "size", "shape", "out"]
LIGHT = ("noprobe", "nosegs")
QUICK_GRAPHS = [(3, 3, 14), (2, 3, 8), (1, 3, 11), (5, 3, 18), (4, 4, 14), (3, 5, 17), (1, 5, 15), (1, 4, 11)]
DEEP_GRAPHS = [(3, 3, 18), (2, 3, 10), (1, 3, 16), (5, 3, 22), (4, 4, 17), (3, 5, 21), (1, 5, 18), (1, 4, 13), (2, 4, 13), (4, 3, 17), (2, 5, 14), (6, 3, 22)]


def graphs(run, quick=None, deep=None):
    return shapes.build(run, (deep or DEEP_GRAPHS) if run.thorough else (quick or QUICK_GRAPHS))


def rnd(run, tag):
    return random.Random("%s/%d/%s" % (run.prop, run.seed, tag))


# ------------------------------------------------------------------ large containers
# (elements per segment, entries per node, counted elements, about how many elements)
BIG = [(3, 3, 1, 9000), (1, 3, 0, 5000), (1, 300, 0, 90000), (2, 31, 1, 20000), (128, 31, 0, 150000), (300, 5, 0, 60000), (5, 4, 1, 12000), (1, 31, 0, 30000), (40, 1000, 0, 90000)]
HUGE = [(1, 70000, 0, 150000), (70000, 3, 0, 300000)]


def big_history(rng, n, events, fail=0.0, huge=False, focus=()):
    """Batches of single edits, bulk and whole-container calls around n elements."""
    v = [0]

    def val(k):
        v[0] += k + 7
        return v[0] - k

    def few():
        return rng.choice([1, 2, 5, 30, 200, 1000, n // 6])
    pos = lambda: rng.randrange(1 << 30)
    out = ["seed %d" % rng.randrange(1 << 30)]
    out.append("psh 1 %d %d %d" % (0 if huge else rng.randrange(2), n, val(n)))
    if not huge:
        k = n // 3
        out += ["insk 1 %d %d %d %d" % (pos(), k, val(k), rng.randrange(3)) for _ in range(2)]
    i0 = len(out)
    deck = []
    while len(out) < events + i0 or (focus and len(out) < 3 * events + i0 and deck is not None):
        r = rng.random()
        s = 1 if rng.random() < 0.75 else 2
        if focus and not deck and deck is not None:
            # every call asked for at least once
            deck = rng.sample(list(focus), len(focus)) if len(out) == i0 else None
        x = deck.pop() if deck and rng.random() < 0.6 else rng.choice(focus) if focus and not deck and rng.random() < 0.6 else rng.choice(["rev", "uni", "dup", "ins1", "cpc", "cmp"]) if rng.random() < 0.15 else None
        if x in ("rev", "uni", "dup", "ins1", "cpc", "cmp", "rmi", "srt", "mrg", "srtg", "mrgg", "spl", "spr", "swp", "mva", "mvc", "cpa", "insr", "asr") and not (huge and x in ("rmi", "uni")):
            k = few()
            if fail and x in ("dup", "ins1", "cpa", "cpc", "spr", "spl", "insr", "asr") and rng.random() < fail:
                out.append("F %d" % rng.choice([1, 2, 3, 4, 6, 10, 25, 80]))
            if x in ("mva", "mvc", "cpa", "spl", "mrg", "mrgg"):
                # something to take
                a = max(1, rng.choice([1, 2, 40, n // 9, n // 3]))
                out.append("insr %d %d %d %d %d" % (3 - s, pos(), a, val(a), rng.randrange(2)))
            out.append({"rev": "rev %d" % s, "uni": "uni %d %d" % (s, max(2, n // rng.choice([20, 60, 150]))), "dup": "dup %d %d %d %d %d" % (s, pos(), k, pos(), rng.randrange(2)),
                        "ins1": "ins1 %d %d %d %d" % (s, pos(), pos(), rng.choice([1, 2, 4])), "cpc": "cpc %d" % s,
                        "cmp": "cmp %d %d %d %d" % (s, pos(), rng.choice([0, 0, 1, -1, 99]), pos()),
                        "rmi": "rmi %d %d %d" % (s, rng.randrange(max(1, v[0])), rng.randrange(max(1, v[0]))), "srt": "srt %d" % s, "mrg": "mrg %d" % s, "srtg": "srtg %d %d" % (s, max(2, n // rng.choice([8, 40, 100]))),
                        "mrgg": "mrgg %d %d %d" % (s, max(2, n // rng.choice([8, 40, 100])), rng.randrange(2)),
                        "spl": "spl %d %d" % (s, pos()), "spr": "spr %d %d %d %d" % (s, pos(), pos(), pos()), "swp": "swp %d" % s, "mva": "mva %d" % s, "mvc": "mvc %d" % s,
                        "cpa": "cpa %d" % s, "insr": "insr %d %d %d %d %d" % (s, pos(), k, val(k), rng.randrange(2)), "asr": "asr %d %d %d %d" % (s, k * 3, val(k * 3), rng.randrange(2))}[x])
            if x in ("uni", "rmi", "swp", "mva", "mvc") and rng.random() < 0.5:
                out.append("psh 1 0 %d %d" % (n // 3, val(n // 3)))
            continue
        if fail and rng.random() < fail:
            out.append("F %d" % rng.choice([1, 2, 3, 4, 6, 10, 25, 80]))
        if huge:
            r = r * 0.6 + 0.4 if r > 0.3 else r
        k = min(few(), 40) if huge else few()
        if r < 0.08:
            out.append("psh %d %d %d %d" % (s, rng.randrange(2), k, val(k)))
        elif r < 0.28:
            out.append("insk %d %d %d %d %d" % (s, pos(), k, val(k), rng.randrange(3)))
        elif r < 0.33:
            out.append("popk %d %d %d" % (s, rng.randrange(2), k))
        elif r < 0.50:
            out.append("erk %d %d %d %d" % (s, pos(), k, rng.randrange(2)))
        elif r < 0.56:
            a = pos()
            out.append("err %d %d %d" % (s, a, a + k))
        elif r < 0.62:
            out.append("insr %d %d %d %d" % (s, pos(), k, val(k)))
        elif r < 0.66:
            out.append("spr %d %d %d %d" % (s, pos(), pos(), pos()))
        elif r < 0.70:
            out.append("swp %d" % s)
        elif r < 0.74:
            out.append("spl 1 %d" % pos())
        elif r < 0.78:
            out.append("rmi %d %d %d" % (s, rng.randrange(max(1, v[0])), rng.randrange(max(1, v[0]))))
        elif r < 0.81:
            out.append("mvc %d" % s)
        elif r < 0.84:
            out.append("mva 1" if rng.random() < 0.5 else "mvc 1")
        elif r < 0.88:
            out.append("srt %d" % s if rng.random() < 0.5 else "mrg 1")
        elif r < 0.91:
            out.append("cpa 2")
            out.append("asr 2 %d %d" % (k, val(k)))
        elif r < 0.94:
            out.append("asr %d %d %d" % (s, k * 3, val(k * 3)))
        elif r < 0.96:
            a = pos()
            out.append("cut %d %d" % (s, a))
        else:
            out.append("psh 1 0 %d %d" % (n // 4, val(n // 4)))
    # down to almost nothing, from both ends and the middle, and a few more edits
    if not huge:
        out += ["erk 1 %d %d %d" % (pos(), n // 2, rng.randrange(2)), "popk 1 1 %d" % (n // 2), "popk 1 0 %d" % (n // 3), "insk 1 %d 40 %d 0" % (pos(), val(40)), "err 1 1 -1"]
    return out


def large(run, groups, pick_cfgs, events=18, n=1, fail=0.0, focus=()):
    """Jobs on large containers, judged by BigTrace."""
    run.later("MCRuns", "SPECIFICATION Spec\nINVARIANTS Same Joined Length At Dist Ordered\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n MaxVal = 3\n"
              % (5 if run.thorough else 3), "runs", workers=1)
    jobs = []
    for i in pick_cfgs if not run.thorough else range(len(BIG)):
        S, B, e, size = BIG[i]
        r = rnd(run, "big%d_%d" % (S, B))
        hs = [big_history(r, size // 3 if k % 2 else size, events * (3 if run.thorough else 1), fail, focus=focus) for k in range(n * (4 if run.thorough else 1))]
        jobs += [dict(cfg=vlib.Big(S, B, e), histories=[h], groups=groups, opts=(), module="BigTrace") for h in hs]
    return jobs


# ------------------------------------------------------------------ C01
@check
def C01(run):
    """Every transition of SegShape (each reachable arrangement up to the bound, each insertion and removal) is
    executed and judged by SeqTrace against the ideal sequence; SegHeap is explored; random histories and
    containers up to 90000 elements (BigTrace) beyond the bounds."""
    gs = graphs(run)
    run.heap(*([(3, 3, 14), (1, 3, 11), (5, 3, 18)] if run.thorough else [(3, 3, 8)]))
    jobs = []
    for gr in gs:
        jobs += jobs_for(Cfg(gr.S, gr.B), walk_histories(gr, rnd(run, gr.S * 10 + gr.B)), BASIC, LIGHT)
    k = 8 if run.thorough else 1
    for c, top, n in [(Cfg(3, 3), 120, 12), (Cfg(1, 3), 60, 10), (Cfg(2, 3, "Pod"), 90, 10), (Cfg(4, 5, "Mo"), 200, 6), (Cfg(3, 3, "Pod", std=True), 90, 6), (Cfg(2, 4, "Pod", 64), 60, 4), (Cfg(3, 4, "int"), 90, 4), (Cfg(3, 3, "Tr", 128), 90, 4)]:
        r = rnd(run, c.name)
        jobs += jobs_for(c, [gens.singles(r, 200, top) for _ in range(n * k)], BASIC, LIGHT)
    jobs += large(run, ["contents", "size", "out"], [0, 1, 3, 6])
    run.validate(jobs)


# ------------------------------------------------------------------ bulk calls on an arrangement
def bulk_calls(n, g, rng, share):
    """All bulk calls on a container of n elements, a share of them."""
    L = []
    for p in range(n + 1):
        for c in (0, 1, 2, 4, 9):
            L.append("insn 1 %d %d %d %d" % (p, c, g.v(), rng.choice([0, 1, 2, 5])))
        for c in (0, 1, 3, 8):
            L.append("insr 1 %d %d %d : %s" % (p, rng.randrange(5), rng.choice([0, 1, 2, 5]), g.vs(c)))
        for q in range(p, n + 1):
            L.append("err 1 %d %d %d" % (p, q, rng.choice([0, 1, 2, 5])))
    for m in range(n + 5):
        L.append("res 1 %d" % m)
        L.append("resv 1 %d %d" % (m, g.v()))
    for m in (0, 1, 2, n - 1, n, n + 1, n + 6):
        if m >= 0:
            L.append("asn 1 %d %d" % (m, g.v()))
            L.append("asr 1 %d : %s" % (rng.randrange(6), g.vs(m)))
    L.append("clr 1")
    return [[x] for x in L if share >= 1 or rng.random() < share]


BULK_GRAPHS = [(3, 3, 11), (2, 3, 7), (1, 3, 8), (5, 3, 14), (4, 4, 11), (3, 5, 14), (1, 5, 12), (1, 4, 8)]
BULK_DEEP = [(3, 3, 15), (2, 3, 9), (1, 3, 13), (5, 3, 18), (4, 4, 13), (3, 5, 17), (1, 5, 15), (1, 4, 11), (4, 3, 14)]


def share_for(graph, events, per):
    """Fraction of the calls that keeps about this many events."""
    total = sum(per(graph.size[s]) for s in graph.order)
    return min(1.0, events / max(1.0, 2.0 * total))


def bulk_jobs(run, groups, opts, events):
    jobs = []
    for gr in graphs(run, BULK_GRAPHS, BULK_DEEP):
        r = rnd(run, "bulk%d%d" % (gr.S, gr.B))
        sh = share_for(gr, events * (10 if run.thorough else 1), lambda n: 9 * (n + 1) + (n + 1) * (n + 2) / 2 + 2 * n + 25)
        h = at_states(gr, r, lambda s, n, g: bulk_calls(n, g, r, sh))
        jobs += jobs_for(Cfg(gr.S, gr.B), h, groups, opts, 14000)
    return jobs


@check
def C02(run):
    """Bulk calls at every arrangement of SegShape up to the bound, random bulk histories, large containers;
    contents judged by SeqTrace / BigTrace."""
    jobs = bulk_jobs(run, BASIC, LIGHT, 6000)
    k = 8 if run.thorough else 1
    for c, big, n in [(Cfg(3, 3), 40, 8), (Cfg(1, 3), 20, 8), (Cfg(2, 4, "Pod"), 30, 8), (Cfg(7, 5, "Ctd"), 90, 8), (Cfg(32, 6, "Odd<5>"), 300, 4), (Cfg(3, 3, "Pod", std=True), 40, 6), (Cfg(2, 3, "Tr", 64), 30, 4), (Cfg(3, 3, "Anch"), 40, 4), (Cfg(2, 4, "Pod", 128 + 16), 40, 4), (Cfg(3, 4, "int"), 40, 4)]:
        r = rnd(run, c.name)
        jobs += jobs_for(c, [gens.bulks(r, 120, big) for _ in range(n * k)], BASIC, LIGHT)
    jobs += large(run, ["contents", "size", "out", "talk"], [2, 4, 8], focus=("dup", "asr", "insr"))
    run.validate(jobs)


# ------------------------------------------------------------------ C03
@check
def C03(run):
    """Every transition of SegShape with the returned iterator used (read, walked, compared) and given to the next
    edit, SegHeap's correct-iterator invariant, chains of edits at returned iterators, large containers."""
    run.heap(*([(1, 3, 11), (1, 4, 13), (2, 3, 9)] if run.thorough else [(1, 3, 7)]))
    jobs = []
    groups = ["ret", "retuse", "out"]
    for gr in graphs(run):
        r = rnd(run, gr.S * 10 + gr.B)
        # every transition, the position sometimes taken from the previous result
        jobs += jobs_for(Cfg(gr.S, gr.B), walk_histories(gr, r), groups, ("nosegs",))
    jobs += bulk_jobs(run, groups, ("nosegs",), 3000)
    k = 8 if run.thorough else 1
    for c, n in [(Cfg(3, 3), 10), (Cfg(1, 3), 10), (Cfg(2, 3, "Pod"), 8), (Cfg(4, 5, "Mo"), 6)]:
        r = rnd(run, c.name)
        hs = []
        for _ in range(n * k):
            # long chains of edits, each at the iterator the last one returned or next to it
            g = gens.Gen(r)
            h = ["mk 1 10", "insr 1 0 0 0 : %s" % g.vs(r.randrange(1, 30))]
            while len(h) < 160:
                w = r.choice([8, 8, 9, 10])
                x = r.random()
                if x < 0.4:
                    h.append("ins 1 %d %d %d %d" % (g.p(), r.randrange(5), g.v(), w))
                elif x < 0.75:
                    h.append("er 1 %d %d" % (g.p(), w))
                elif x < 0.82:
                    h.append("insn 1 %d %d %d %d" % (g.p(), g.count(5), g.v(), w))
                elif x < 0.9:
                    h.append("insr 1 %d %d %d : %s" % (g.p(), r.randrange(5), w, g.vs(g.count(6))))
                else:
                    h.append("err 1 %d %d %d" % (g.p(), r.randrange(40), w))
            hs.append(h)
        jobs += jobs_for(c, hs, groups, ("nosegs",))
    jobs += large(run, ["ret"], [0, 1, 4])
    run.validate(jobs)


# ------------------------------------------------------------------ read-only interfaces on every arrangement
VIEW_GRAPHS = [(3, 3, 14), (2, 3, 9), (1, 3, 13), (5, 3, 17), (4, 4, 15), (3, 5, 16), (1, 5, 15), (1, 4, 11)]
VIEW_DEEP = [(3, 3, 19), (2, 3, 11), (1, 3, 17), (5, 3, 23), (4, 4, 18), (3, 5, 20), (1, 5, 18), (1, 4, 14), (4, 3, 18)]


def view_jobs(run, per_state, groups, opts, limit, big):
    jobs = []
    for gr in graphs(run, VIEW_GRAPHS, VIEW_DEEP):
        r = rnd(run, "view%d%d" % (gr.S, gr.B))
        states = pick(r, gr.order, limit * (12 if run.thorough else 1))
        h = at_states(gr, r, lambda s, n, g: [per_state(n, g, r)], states=states)
        jobs += jobs_for(Cfg(gr.S, gr.B), h, groups, opts, 4000)
    # taller and wider containers, grown and thinned at random
    for c, n in [(Cfg(1, 3), 60), (Cfg(3, 3), 150), (Cfg(2, 5, "Pod"), 120), (Cfg(16, 8, "Odd<5>"), 260), (Cfg(5, 4, "Weird"), 120), (Cfg(3, 3, "Tr", 128 + 64), 120)]:
        r = rnd(run, "big" + c.name)
        hs = []
        for _ in range(big * (6 if run.thorough else 1)):
            g = gens.Gen(r)
            h = ["Q 1", "mk 1 10"]
            for _ in range(r.randrange(1, 4)):
                h += ["ins 1 %d 2 %d 0" % (g.p() if r.random() < 0.5 else r.randrange(400), g.v()) for _ in range(r.randrange(n))]
                h += ["er 1 %d 0" % r.randrange(400) for _ in range(r.randrange(n // 2))]
            h += ["Q 0", "snap"] + per_state(None, g, r)
            hs.append(h)
        jobs += jobs_for(c, hs, groups, opts, 4000)

    # between edits and whole-container calls of every kind: what was looked up before
    # a call must not show in what is looked up after it
    def on(s, g, r):
        return [x.replace(" 1", " %d" % s, 1) for x in per_state(None, g, r)]
    for gr, (S, B) in zip(wholes.build(run, [(2, 0, t, (10,)) for t in ((0, 7) if not run.thorough else (0, 7, 2, 5))]), [(2, 3), (1, 3), (3, 4), (3, 3)]):
        r = rnd(run, "viewwhole%d" % gr.traits)
        g = gens.Gen(r)
        h = wholes.histories(gr, g, r, probe=lambda s: on(s, g, r) if r.random() < (0.3 if not run.thorough else 1) else [])
        jobs += jobs_for(Cfg(S, B, "Tr", gr.traits), h, groups, opts, 4000)
    for c, n in [(Cfg(3, 3), 5), (Cfg(1, 3, "Tr", 7), 5), (Cfg(4, 4, "Pod", 2), 5)]:
        r = rnd(run, "viewmix" + c.name)
        g = gens.Gen(r)
        hs = []
        for _ in range(n * (6 if run.thorough else 1)):
            h = []
            for x in gens.mixed(r, 70, traits=c.traits, big=16, fail=0.1):
                h.append(x)
                if r.random() < 0.5 and not x.startswith("F"):
                    h += on(r.randrange(1, 4), g, r)
            hs.append(h)
        jobs += jobs_for(c, hs, groups, opts, 4000)
    return jobs


def writes(n, g, r, k=4):
    return ["wr 1 %d %d %d" % (r.randrange(60), r.randrange(12), g.v()) for _ in range(k)]


@check
def C04(run):
    """Every index of arrangements of SegShape, of random and large containers, and between whole-container calls;
    all access paths must name the same object."""
    run.validate(view_jobs(run, lambda n, g, r: ["idx 1"] + writes(n, g, r), ["idx", "write"], ("nosegs",), 320, 6) + large(run, ["look"], [2, 4, 5, 7]))


@check
def C05(run):
    """Every pair of positions of arrangements of SegShape (each way of moving an iterator), of random and large
    containers; SegHeap explores iterator steps."""
    run.heap(*([(2, 3, 9), (1, 5, 18), (3, 5, 16)] if run.thorough else [(2, 3, 6)]))
    run.validate(view_jobs(run, lambda n, g, r: ["its 1"] + writes(n, g, r), ["its", "write"], ("nosegs",), 160, 3) + large(run, ["jump"], [0, 2, 5]))


@check
def C06(run):
    """Segment pointers and all segment jumps, with every count, from every position of arrangements of SegShape,
    of random and large containers."""
    run.validate(view_jobs(run, lambda n, g, r: ["seg 1"], ["seg"], (), 320, 6) + large(run, ["nav"], [2, 3, 4, 7], focus=("mva", "swp", "spr", "insr")))


# ------------------------------------------------------------------ C07
@check
def C07(run):
    """SegHeap and SegShape keep the balance invariants for every transition up to the bound; the real tree is
    walked after every call (random, failing, large) and judged by TreeOK."""
    run.heap(*([(4, 4, 16), (2, 4, 12), (1, 4, 13)] if run.thorough else [(1, 4, 8), (4, 3, 8)]))
    jobs = []
    groups = ["tree", "height", "size"]
    for gr in graphs(run):
        r = rnd(run, gr.S * 10 + gr.B)
        jobs += jobs_for(Cfg(gr.S, gr.B), walk_histories(gr, r), groups, ("tree", "noprobe"))
    k = 8 if run.thorough else 1
    for c, n, fail in [(Cfg(3, 3), 8, 0.15), (Cfg(1, 3), 8, 0), (Cfg(2, 4, "Pod"), 8, 0), (Cfg(5, 5), 8, 0.15), (Cfg(8, 3, "Odd<7>"), 6, 0)]:
        r = rnd(run, c.name)
        jobs += jobs_for(c, [gens.mixed(r, 110, big=24, fail=fail) for _ in range(n * k)], groups, ("tree", "noprobe"))
        jobs += jobs_for(c, [gens.singles(r, 160, 90) for _ in range(4 * k)], groups, ("tree", "noprobe"))
    jobs += large(run, ["tree", "size"], [1, 2, 4, 6, 8], fail=0.1)
    run.validate(jobs)


# ------------------------------------------------------------------ C08
@check
def C08(run):
    """An object and block ledger kept by instrumented elements and allocators is judged after every call of every
    transition, of random histories with failures, for ten element types and several allocator kinds, and on large
    containers."""
    run.heap(*([(2, 3, 9), (3, 4, 14)] if run.thorough else [(2, 3, 6)]))
    jobs = []
    groups = ["objects", "blocks", "anomaly"]
    for gr in graphs(run, [(3, 3, 13), (2, 3, 8), (1, 3, 10), (5, 3, 16), (3, 5, 15)]):
        r = rnd(run, gr.S * 10 + gr.B)
        jobs += jobs_for(Cfg(gr.S, gr.B, "Tr", 16), walk_histories(gr, r), groups, ("tree", "noprobe"))
    k = 8 if run.thorough else 1
    for c, n, fail in [(Cfg(3, 3, "Tr", 16), 10, 0.2), (Cfg(2, 3, "Tr", 0), 10, 0.2), (Cfg(1, 3, "Ctd", 16 + 7), 10, 0.15), (Cfg(4, 4, "Pod", 16), 8, 0.1),
                       (Cfg(3, 5, "Weird", 7), 8, 0.2), (Cfg(5, 3, "Mo", 16 + 2), 8, 0.2), (Cfg(3, 3, "Pod", 0), 8, 0.1), (Cfg(2, 3, "Greedy", 1), 6, 0.15), (Cfg(3, 3, "Wide", 4), 5, 0.15),
                       (Cfg(3, 3, "Tr", std=True), 6, 0.2), (Cfg(2, 3, "Pod", std=True), 6, 0.1), (Cfg(1, 3, "Ctd", std=True), 6, 0.2), (Cfg(3, 3, "Pod", 64 + 7), 6, 0.1), (Cfg(1, 4, "Tr", 64), 6, 0.2),
                       (Cfg(3, 4, "Anch", 7), 6, 0.15), (Cfg(2, 3, "Anch", std=True), 6, 0.1)]:
        r = rnd(run, c.name)
        jobs += jobs_for(c, [gens.mixed(r, 110, traits=c.traits, big=16, fail=fail) for _ in range(n * k)], groups, ("tree", "noprobe"))
    for c in [Cfg(2, 3, "Tr", 16), Cfg(3, 3, "Pod", 2), Cfg(1, 3, "Mo", 16 + 5)]:
        r = rnd(run, c.name + "w")
        jobs += jobs_for(c, whole(run, c.traits, r, [0, 1, 4, 11], 1, False), groups, ("tree", "noprobe"), 20000)
    jobs += large(run, ["mem"], [0, 3, 6], fail=0.2)
    run.validate(jobs)


# ------------------------------------------------------------------ C09
@check
def C09(run):
    """Every transition of SegShape is repeated with each of its allocations and constructions failing in turn;
    contents, iterators, objects and blocks must be those before the call. SegHeap explores failure and unwinding
    at every step."""
    run.heap(*([(3, 3, 15), (1, 3, 12), (1, 5, 18), (5, 3, 18)] if run.thorough else [(3, 3, 8), (1, 3, 7)]))
    jobs = []
    groups = ["strong", "strongc", "out", "objects", "blocks", "anomaly", "held", "contents", "size", "shape"]
    for gr in graphs(run, [(3, 3, 13), (2, 3, 7), (1, 3, 10), (5, 3, 16), (3, 5, 15), (1, 5, 13), (1, 4, 8)]):
        r = rnd(run, gr.S * 10 + gr.B)
        g = gens.Gen(r)
        hs = []
        for w in gr.cover(60, r):
            h = ["mk 1 10"]
            for s, k, nx in w:
                n = gr.size[s]
                if k[0] == "ins":
                    if n and r.random() < 0.4:
                        h.append("hold 1 1 %d" % r.randrange(n))
                        h.append("hold 2 1 %d" % (n - 1))
                    al = gr.edges[s][k][1]
                    line = None
                    for f in range(1, al + 1):
                        line = call_line(k, n, g, r)
                        h += ["F 1 %d" % f, line]
                    if al and r.random() < 0.3:
                        h += ["F 4 %d" % r.randrange(1, al + 1), call_line(k, n, g, r)]
                    mode = r.choice([0, 2, 4])
                    h += ["F 2 1", "ins 1 %d %d %d %d" % (k[1], mode, g.v(), r.choice([0, 1, 2, 7]))]
                    if n and r.random() < 0.3:
                        h += ["F %d 1" % r.choice([1, 2]), "insa 1 %d %d %d 0" % (k[1], r.randrange(6), r.randrange(n)), "F 0 0"]
                        if al == 0:
                            # it may have succeeded: take the element out again
                            h = h[:-3]
                    if n and r.random() < 0.4:
                        h += ["chk 1", "chk 2"]
                    h.append(line or call_line(k, n, g, r))
                else:
                    h.append(call_line(k, n, g, r))
            hs.append(h)
        jobs += jobs_for(Cfg(gr.S, gr.B, r.choice(["Tr", "Tr", "Weird"]), r.choice([0, 16])), hs, groups, ("tree",), 7000)
    # element types of other categories, tall trees
    k = 8 if run.thorough else 1
    for c in [Cfg(1, 3), Cfg(2, 3, "Mo"), Cfg(3, 3, "Ctd", 16), Cfg(3, 3, "Tr", std=True), Cfg(2, 3, "Tr", 64)]:
        r = rnd(run, c.name)
        hs = []
        for _ in range(8 * k):
            h = []
            for x in gens.singles(r, 130, 60):
                if x.startswith(("ins", "push")) and r.random() < 0.6:
                    h.append("F %d %d" % (r.choice([1, 1, 2, 3, 4, 6]), r.choice([1, 1, 2, 3, 4, 5])))
                h.append(x)
            hs.append(h)
        jobs += jobs_for(c, hs, groups, ("tree",), 7000)
    jobs += large(run, ["strong", "out", "mem"], [0, 1, 3, 6], fail=0.35, focus=("ins1",))
    run.validate(jobs)


# ------------------------------------------------------------------ C10
@check
def C10(run):
    """Every failing bulk call on arrangements of SegShape, random histories with 40% failing calls, failures in
    large containers; afterwards all containers are judged valid, used and destroyed, with the ledger balanced."""
    jobs = []
    groups = ["out", "others", "objects", "blocks", "anomaly", "size", "shape", "strongc", "tree", "contents", "idx"]
    use = lambda g, r, s=1: ["idx %d" % s, "ins %d %d 2 %d 0" % (s, g.p(), g.v()), "er %d %d 0" % (s, g.p())]

    def failing(n, g, r):
        """groups of lines: a failing call, then use of every container involved"""
        L = []
        cnt = lambda: r.choice([1, 2, 3, 5, 8])
        p = lambda: r.randrange(n + 1)
        f = lambda: "F %d %d" % (r.choice([1, 2, 3, 3, 4, 5]), r.choice([1, 2, 3, 4, 5, 7, 10]))
        ow = "mkr 2 %d 2 : %s" % (r.choice([10, 11, 20, 20]), g.vs(r.randrange(9)))
        dt = ["Q 1", "dt 2", "Q 0", "snap"]
        L.append([f(), "insn 1 %d %d %d 0" % (p(), cnt(), g.v())] + use(g, r))
        L.append([f(), "insr 1 %d %d 0 : %s" % (p(), r.randrange(5), g.vs(cnt()))] + use(g, r))
        L.append([f(), "res 1 %d" % (n + cnt())] + use(g, r))
        L.append([f(), "resv 1 %d %d" % (n + cnt(), g.v())] + use(g, r))
        L.append([f(), "asn 1 %d %d" % (r.randrange(n + 8), g.v())] + use(g, r))
        L.append([f(), "asr 1 %d : %s" % (r.randrange(6), g.vs(r.randrange(n + 8)))] + use(g, r))
        for op in ("spl 1 %d 2 %d 0" % (p(), r.randrange(2)), "sp1 1 %d 2 %d %d 0" % (p(), r.randrange(9), r.randrange(2)),
                   "spr 1 %d 2 %d %d %d 0" % (p(), r.randrange(9), r.randrange(9), r.randrange(2)), "cpa 1 2", "cpa 2 1", "mva 1 2", "mva 2 1",
                   "inss 1 %d 2 %d %d 0" % (p(), r.randrange(9), r.randrange(9))):
            L.append([ow, f(), op] + use(g, r) + use(g, r, 2) + dt)
        c = r.randrange(3)
        L.append([ow, "srt 1 %d" % c, "srt 2 %d" % c, r.choice(["T 1", "T 0"]), r.choice([f(), "F 7 %d" % r.randrange(1, 9)]), "mrg 1 2 %d %d" % (r.randrange(2), c), "T 0"] +
                 use(g, r) + use(g, r, 2) + dt)
        for op in ("cpc 2 1", "cpca 2 1 20", "mvca 2 1 20", "mvca 2 1 10", "mkn 2 20 %d %d" % (cnt(), g.v()), "mkd 2 10 %d" % cnt(),
                   "mkr 2 10 %d : %s" % (r.randrange(5), g.vs(cnt()))):
            L.append([f(), op] + use(g, r) + ["idx 2"] + dt)
        # calls that only remove do not fail
        L.append(["F 6 1", "err 1 %d %d 0" % (p(), p())])
        L.append(["F 6 1", "res 1 %d" % r.randrange(n + 1)])
        L.append(["F 6 1", r.choice(["rem 1 %d" % g.v(), "remif 1 2 0", "uni 1 0", "er 1 %d 0" % p(), "pop 1 %d" % r.randrange(2)])])
        L.append(["F 6 1", "clr 1"])
        L.append(["F 7 %d" % r.randrange(1, 6), r.choice(["srt 1 0", "uni 1 1", "remif 1 2 1", "rem 1 %d" % g.v()])] + use(g, r))
        return L
    for gr, tr in zip(graphs(run, [(3, 3, 12), (2, 3, 7), (1, 3, 8), (5, 3, 14), (3, 5, 14), (1, 5, 12)]), (7, 0, 2, 16, 1, 5)):
        r = rnd(run, gr.S * 10 + gr.B)
        states = pick(r, gr.order, 60 if not run.thorough else 800)
        jobs += jobs_for(Cfg(gr.S, gr.B, "Tr", tr), at_states(gr, r, lambda s, n, g: failing(n, g, r), states=states), groups, ("tree", "noprobe"), 9000)
    k = 8 if run.thorough else 1
    for c in [Cfg(3, 3, "Ctd", 7), Cfg(2, 3, "Mo", 0), Cfg(4, 4, "Tr", 2), Cfg(3, 3, "Ctd", std=True), Cfg(3, 3, "Tr", 64 + 1)]:
        r = rnd(run, c.name)
        jobs += jobs_for(c, [gens.mixed(r, 110, traits=c.traits, big=20, fail=0.4) for _ in range(6 * k)], groups, ("tree", "noprobe"))
    # removals of any part of larger containers, while nothing can be allocated
    for c in [Cfg(3, 3, "Tr", 7), Cfg(1, 3, "Ctd"), Cfg(4, 5, "Mo", 2)]:
        r = rnd(run, c.name + "removal")
        g = gens.Gen(r)
        h = []
        for n in (20, 45, 90, 160) * k:
            for _ in range(4):
                a = r.choice([0, 1, 2, r.randrange(n)])
                b = max(a, n - r.choice([0, 1, 2, 5, r.randrange(n)]))
                h += ["dt 1", "mkr 1 10 2 : %s" % g.vs(n), "F 6 1", "err 1 %d %d 0" % (a, b), "snap"] + use(g, r) + ["F 6 1", r.choice(["clr 1", "res 1 %d" % r.randrange(3), "remif 1 3 0", "err 1 1 3 0"]), "snap"]
        jobs += jobs_for(c, [h], groups, ("tree", "noprobe"))
    jobs += large(run, ["out", "mem", "size"], [0, 3, 6], fail=0.5, focus=("spr", "spl", "dup", "asr", "insr", "mrg", "cpa", "cpc"))
    run.validate(jobs)


# ------------------------------------------------------------------ C11, C12
ALL_TRAITS = [a + b + c for a in (0, 1) for b in (0, 2) for c in (0, 4)]


def whole(run, traits, r, sizes, reps, use):
    """Whole-container calls between containers of every size and allocator relation."""
    hs = []
    eq = traits & 8
    for na in sizes:
        for nb in sizes:
            for la, lb in ((10, 10), (10, 11), (10, 20)):
                same = la // 10 == lb // 10 or eq
                calls = ["cpc 3 1", "cpca 3 1 %d" % lb, "mvc 3 1", "mvca 3 1 %d" % lb, "cpa 2 1", "mva 2 1", "cpa 1 1", "swp 1 1 0"]
                if traits & 4 or same:
                    calls += ["swp 1 2 0", "swp 1 2 1"]
                for c in calls:
                    for _ in range(reps):
                        g = gens.Gen(r)
                        h = ["mkr 1 %d 1 : %s" % (la, g.vs(na)), "mkr 2 %d 1 : %s" % (lb, g.vs(nb))]
                        if r.random() < 0.5:
                            h += ["ins 1 %d 2 %d 0" % (r.randrange(30), g.v()), "er 1 %d 0" % r.randrange(30)]
                        if use:
                            h += ["hold 1 1 0", "hold 2 1 %d" % r.randrange(max(1, na)), "hold 3 1 %d" % max(0, na - 1), "hold 4 2 %d" % r.randrange(max(1, nb))]
                        h.append(c)
                        if use:
                            h += ["chk 1", "chk 2", "chk 3", "chk 4", r.choice(["eh 2", "ih 2 %d" % g.v(), "eh 4", "ih 4 %d" % g.v(), "ih 3 %d" % g.v()])]
                        # later changes to either
                        for s in (1, 2, 3):
                            if r.random() < 0.7:
                                h.append(r.choice(["ins %d %d 2 %d 0" % (s, r.randrange(30), g.v()), "er %d %d 0" % (s, r.randrange(30)), "clr %d" % s,
                                                   "wr %d %d 0 %d" % (s, r.randrange(30), g.v()), "res %d %d" % (s, r.randrange(12)), "dt %d" % s]))
                        if r.random() < 0.3:
                            h.append(r.choice(["cpa 1 2", "mva 1 3", "cpa 3 2", "mva 2 3", "spl 1 0 2 0 0", "cmp 1 3"]))
                        hs.append(h)
    return hs


@check
def C11(run):
    """Every transition of the whole-container model MCSeq with a held iterator, all sizes and allocator
    relations, held iterators used to read and edit afterwards; large containers."""
    jobs = []
    groups = ["contents", "size", "shape", "held", "ret", "free", "out", "transfer"]
    cfgs = [Cfg(3, 3, "Tr", 0), Cfg(2, 3, "Tr", 7), Cfg(3, 3, "Pod", 8), Cfg(1, 3, "Tr", 2), Cfg(4, 4, "Tr", 4 + 32), Cfg(2, 3, "Ctd", 1), Cfg(3, 4, "Weird", 6), Cfg(3, 3, "Tr", 16 + 3), Cfg(3, 3, "Tr", std=True), Cfg(2, 3, "Tr", 64 + 5)]
    for c in cfgs:
        r = rnd(run, c.name)
        sizes = [0, 1, c.S + 1, 3 * c.S + 2, 14] if not run.thorough else [0, 1, c.S, c.S + 1, 2 * c.S + 1, 3 * c.S + 2, 14, 40]
        jobs += jobs_for(c, whole(run, c.traits, r, sizes, 1, True), groups, ("nosegs",), 9000)
    k = 8 if run.thorough else 1
    for c in [Cfg(3, 3, "Tr", 7), Cfg(2, 3, "Tr", 0)]:
        r = rnd(run, c.name + "m")
        jobs += jobs_for(c, [gens.mixed(r, 120, traits=c.traits, big=12) for _ in range(8 * k)], groups, ("nosegs",))
    # every transition of the whole-container model, with a held iterator
    specs = [(2, 1, 7, (10, 20)), (2, 1, 0, (10, 11)), (2, 1, 2, (10, 20))]
    if run.thorough:
        specs = [(2, 1, t, (10, 11, 20)) for t in (0, 1, 2, 4, 7, 8)] + [(2, 2, 6, (10, 20)), (3, 0, 3, (10, 20))]
    for gr, (S, B) in zip(wholes.build(run, specs), [(2, 3), (1, 3), (3, 4), (2, 4), (1, 5), (3, 3), (5, 3), (4, 4)]):
        r = rnd(run, "whole%d" % gr.traits)
        jobs += jobs_for(Cfg(S, B, "Tr", gr.traits), wholes.histories(gr, gens.Gen(r), r), groups, ("nosegs",), 9000)
    jobs += large(run, ["kept", "contents", "out", "talk"], [0, 3, 6, 2], focus=("mva", "mvc", "swp", "cpa", "cpc"))
    run.validate(jobs)


@check
def C12(run):
    """Every transition of MCSeq for all eight combinations of propagation traits and several allocator kinds;
    allocator labels and the block ledger are judged after each call."""
    jobs = []
    groups = ["labels", "groups", "anomaly", "out"]
    variants = [0, 16, 32, 8 + 64]
    for i, t in enumerate(ALL_TRAITS):
        tr = t + variants[i % 4]
        for tr in ([t + v for v in variants] if run.thorough else [tr, t + variants[(i + 2) % 4]]):
            c = Cfg(2, 3, "Tr" if i % 2 else "Pod", tr)
            r = rnd(run, c.name)
            jobs += jobs_for(c, whole(run, tr, r, [0, 1, 3, 9], 1, False), groups, ("tree", "noprobe"), 20000)
            labels = [10, 11, 20, 21, 30] if (tr & 12) else [10, 10, 11, 20]
            jobs[-1]["histories"] += [gens.mixed(r, 80, traits=tr, big=8, fail=0.1, labels=labels) for _ in range(4)]
    # every transition of the whole-container model for every combination of traits
    specs = [(2, 0, t, (10, 11, 20)) for t in ALL_TRAITS]
    if run.thorough:
        specs += [(3, 0, t, (10, 20)) for t in ALL_TRAITS] + [(2, 0, t, (10, 11, 20)) for t in (8 + 7, 32 + 5, 32)]
    for gr in wholes.build(run, specs):
        r = rnd(run, "whole%d%d" % (gr.slots, gr.traits))
        jobs += jobs_for(Cfg(2, 3, "Tr" if gr.traits % 3 else "Pod", gr.traits), wholes.histories(gr, gens.Gen(r), r), groups, ("tree", "noprobe"), 9000)
    run.validate(jobs)


# ------------------------------------------------------------------ C13
@check
def C13(run):
    """Counted copies judged over every transition of SegShape, bulk calls, random histories and large containers;
    move-only instantiations must compile and behave."""
    jobs = []
    groups = ["copies"]
    for gr in graphs(run, [(3, 3, 12), (2, 3, 7), (1, 3, 9), (5, 3, 16), (3, 5, 14)]):
        jobs += jobs_for(Cfg(gr.S, gr.B), walk_histories(gr, rnd(run, gr.S * 10 + gr.B)), groups, LIGHT)
    jobs += bulk_jobs(run, groups, LIGHT, 2500)
    k = 8 if run.thorough else 1
    for c in [Cfg(3, 3, "Tr", 0), Cfg(2, 3, "Ctd", 7), Cfg(4, 5, "Tr", 2), Cfg(3, 3, "Weird", 16)]:
        r = rnd(run, c.name)
        jobs += jobs_for(c, [gens.mixed(r, 120, traits=c.traits, big=14) for _ in range(8 * k)], groups, LIGHT)
    # the same calls on a type that cannot be copied: must compile and give the same results
    for c in [Cfg(3, 3, "Mo", 0), Cfg(2, 3, "Mo", 16), Cfg(1, 4, "Mo", 7), Cfg(3, 3, "Mo", std=True)]:
        r = rnd(run, c.name)
        jobs += jobs_for(c, [gens.mixed(r, 120, traits=c.traits, big=14) for _ in range(8 * k)], groups + ["contents", "shape"], LIGHT)
    for c in [Cfg(3, 3, "Tr", 0), Cfg(2, 3, "Mo", 2), Cfg(1, 4, "Ctd", 5), Cfg(2, 4, "Mo", 0)]:
        r = rnd(run, c.name + "w")
        jobs += jobs_for(c, whole(run, c.traits, r, [0, 1, 4, 11] + ([30] if run.thorough else []), 1, False), groups + ["contents"], LIGHT, 20000)
    jobs += large(run, ["copies"], [0, 3, 6], focus=("spl", "spr", "mrg", "srt", "rmi", "uni", "rev", "swp", "mva", "dup", "ins1"))
    run.validate(jobs)


# ------------------------------------------------------------------ C14
@check
def C14(run):
    """Splices and merges at arrangements of SegShape, merges of every pair of short sorted sequences, random and
    large containers; exact contents on both sides."""
    jobs = []
    groups = ["contents", "size", "shape", "free", "out"]
    for gr, tr, la in zip(graphs(run, [(3, 3, 12), (2, 3, 7), (1, 3, 8), (5, 3, 14), (4, 4, 11), (3, 5, 14)], [(3, 3, 15), (2, 3, 9), (1, 3, 12), (5, 3, 17), (4, 4, 14), (3, 5, 16)]),
                          (0, 7, 0, 2, 16, 8), (10, 20, 10, 20, 20, 10)):
        r = rnd(run, gr.S * 10 + gr.B)
        lim = 12 if run.thorough else 1

        def per(s, n, g):
            L = []
            for _ in range(14):
                m = r.choice([0, 1, 2, 3, 5, 8, 13])
                mk = "mkr 2 %d 1 : %s" % (r.choice([10, la]), g.vs(m))
                shake = ["ins 2 %d 2 %d 0" % (r.randrange(20), g.v()), "er 2 %d 0" % r.randrange(20)] if r.random() < 0.5 else []
                p, rv, w = r.randrange(n + 1), r.randrange(2), r.choice([0, 1, 2, 5])
                k = r.randrange(8)
                if k < 2:
                    ops = ["spl 1 %d 2 %d %d" % (p, rv, w)]
                elif k < 4:
                    ops = ["sp1 1 %d 2 %d %d %d" % (p, r.randrange(20), rv, w)]
                elif k < 6:
                    ops = ["spr 1 %d 2 %d %d %d %d" % (p, r.randrange(m + 1), r.randrange(m + 1), rv, w)]
                else:
                    c = r.randrange(3)
                    t = r.choice(["T 0", "T 1"])
                    ops = ["srt 1 %d" % c, "srt 2 %d" % c, t, "mrg 1 2 %d %d" % (rv, c), "T 0"]
                L.append(["Q 1", mk] + shake + ["Q 0", "snap"] + ops + ["Q 1", "dt 2", "Q 0"])
            return L
        states = pick(r, gr.order, 70 * lim)
        jobs += jobs_for(Cfg(gr.S, gr.B, "Tr", tr), at_states(gr, r, per, states=states), groups, LIGHT, 9000)
    # merges of every pair of short sorted sequences, for stability
    import itertools
    for c, rv in [(Cfg(3, 3), 0), (Cfg(2, 3, "Mo"), 1)]:
        r = rnd(run, c.name + "mm")
        seqs = [q for n in range(5) for q in itertools.combinations_with_replacement(range(3), n)]
        hs, h = [], []
        for a in seqs:
            for b in seqs:
                if not run.thorough and r.random() > 0.5:
                    continue
                for cmp_, rev in ((0, 0), (1, 1)):
                    x = [k * 100 + i for i, k in enumerate(a[::-1] if rev else a)]
                    y = [k * 100 + 50 + i for i, k in enumerate(b[::-1] if rev else b)]
                    h += ["Q 1", "dt 1", "dt 2", "mkr 1 10 0 : %s" % " ".join(map(str, x)), "mkr 2 10 0 : %s" % " ".join(map(str, y)), "Q 0", "snap",
                          "T %d" % r.randrange(2), "mrg 1 2 %d %d" % (rv, cmp_)]
                    if len(h) > 500:
                        hs.append(h)
                        h = []
        hs.append(h)
        jobs += jobs_for(c, hs, groups, LIGHT, 12000)
    k = 8 if run.thorough else 1
    for c in [Cfg(5, 4, "Pod", 0), Cfg(3, 3, "Mo", 16), Cfg(4, 3, "int", 2)]:
        r = rnd(run, c.name)
        hs = []
        for _ in range(6 * k):
            g = gens.Gen(r, 12, c.keydiv)
            h = []
            for _ in range(12):
                c_ = r.randrange(3)
                h += ["dt 1", "dt 2", "mkr 1 10 0 : %s" % g.vs(r.randrange(90)), "mkr 2 10 0 : %s" % g.vs(r.randrange(90)), "srt 1 %d" % c_, "srt 2 %d" % c_,
                      "T %d" % r.randrange(2), "mrg 1 2 %d %d" % (r.randrange(2), c_)]
            hs.append(h)
        jobs += jobs_for(c, hs, groups, LIGHT)
    jobs += large(run, ["contents", "size", "out"], [0, 2, 3, 7], focus=("spl", "spr", "mrg", "mrgg", "mrgg"))
    run.validate(jobs)


# ------------------------------------------------------------------ C15
def ordered(r, n, div, comp):
    """n values in the order of a comparison of the harness (0 less, 1 greater, 2 key mod 3) but for a few of them."""
    m = max(1, r.choice([3, 8, 40, n]))
    v = [r.randrange(m) * div + (i % div if div > 1 else 0) for i in range(n)]
    key = [lambda x: x, lambda x: -x, lambda x: (x // div) % 3][comp]
    v.sort(key=key)
    k = r.randrange(8)
    if k == 0:
        v.reverse()
    elif k == 1 and n:
        c = r.randrange(n)
        v = v[c:] + v[:c]
    elif k == 2:
        v = v[::2] + v[1::2]
    elif k < 6 and n:
        # a few out of place: at the end, at the front, anywhere
        for _ in range(r.choice([1, 1, 2, 5, 9])):
            x = v.pop(r.randrange(n))
            v.insert([n, 0, r.randrange(n)][k - 3], x)
    return v


@check
def C15(run):
    """Every sequence of up to five (thorough: six) elements over three keys and each algorithm, arrangements of
    SegShape, large containers; exact contents with stability."""
    import itertools
    jobs = []
    groups = ["contents", "size", "shape", "out"]
    algos = ["uni 1 0", "uni 1 1", "uni 1 2", "uni 1 3", "rem 1 0", "rem 1 100", "rem 1 200", "remif 1 2 0", "remif 1 2 1", "rev 1", "srt 1 0", "srt 1 1", "srt 1 2"]
    L = 6 if run.thorough else 5
    allq = [q for n in range(L + 1) for q in itertools.product(range(3), repeat=n)]
    for c, part in [(Cfg(3, 3), 0), (Cfg(2, 3, "Mo"), 1), (Cfg(1, 4, "Pod"), 2)]:
        r = rnd(run, c.name)
        hs, h = [], []
        for i, q in enumerate(allq):
            if i % 3 != part and not run.thorough:
                continue
            v = " ".join(str(k * 100 + j) for j, k in enumerate(q))
            for a in algos:
                h += ["Q 1", "dt 1", "mkr 1 10 0 : " + v, "Q 0", "snap", "T %d" % r.randrange(2), a]
            if len(h) > 600:
                hs.append(h)
                h = []
        hs.append(h)
        jobs += jobs_for(c, hs, groups, LIGHT, 24000)
    for gr in graphs(run, [(3, 3, 12), (2, 3, 8), (1, 3, 9), (5, 3, 14), (3, 5, 14)], [(3, 3, 16), (2, 3, 9), (1, 3, 13), (5, 3, 19), (3, 5, 18)]):
        r = rnd(run, gr.S * 10 + gr.B)

        def per(s, n, g):
            # fresh small keys, then an algorithm
            keys = r.choice([2, 3, 4])
            fill = ["wr 1 %d 0 %d" % (i, r.randrange(keys) * 100 + i) for i in range(n)]
            return [["Q 1"] + fill + ["Q 0", "snap", "T %d" % r.randrange(2), a] for a in pick(r, algos, 6 if not run.thorough else 13)]
        jobs += jobs_for(Cfg(gr.S, gr.B), at_states(gr, r, per, states=pick(r, gr.order, 120 * (10 if run.thorough else 1)), length=900), groups, LIGHT, 26000)
    k = 8 if run.thorough else 1
    NAN = 1073741831
    for c in [Cfg(3, 3, "Tr"), Cfg(16, 4, "Odd<5>"), Cfg(5, 5, "Ctd"), Cfg(3, 3, "double"), Cfg(4, 4, "int", 7)]:
        r = rnd(run, c.name + "big")
        hs = []
        for _ in range(6 * k):
            h = []
            for _ in range(12):
                g = gens.Gen(r, r.choice([2, 3, 10, 60]), c.keydiv)
                h += ["dt 1", "mkr 1 10 0 : %s" % g.vs(r.randrange(120)), "T %d" % r.randrange(2)] + pick(r, algos, 3)
                # nearly in order already
                cm = r.randrange(3)
                if c.elem == "double":
                    # elements equal to nothing
                    n = r.randrange(2, 60)
                    h += ["dt 1", "mkr 1 10 0 : %s" % g.vs(n)] + ["wr 1 %d 0 %d" % (i, NAN) for i in range(n) if r.random() < 0.3] + [r.choice(["uni 1 0", "rem 1 0", "rem 1 100", "rev 1", "uni 1 2"])]
                v = ordered(r, r.choice([r.randrange(20), r.randrange(20, 160)]), c.keydiv, cm)
                h += ["dt 1", "mkr 1 10 0 : %s" % " ".join(map(str, v)), "T %d" % r.randrange(2), "srt 1 %d" % (cm if r.random() < 0.8 else r.randrange(3))]
            hs.append(h)
        jobs += jobs_for(c, hs, groups, LIGHT)
    jobs += large(run, ["contents", "size", "out", "talk"], [0, 4, 6], focus=("uni", "rev", "rmi", "srt", "srtg", "srtg"))
    run.validate(jobs)


# ------------------------------------------------------------------ C16
@check
def C16(run):
    """Every pair of sequences of up to three (thorough: four) elements over three keys, equal contents in
    different arrangements, near misses, large containers."""
    import itertools
    jobs = []
    groups = ["compare"]
    L = 4 if run.thorough else 3
    seqs = [q for n in range(L + 1) for q in itertools.product(range(3), repeat=n)]
    for c in [Cfg(3, 3), Cfg(1, 3, "Pod"), Cfg(2, 4, "Mo"), Cfg(2, 3, "double"), Cfg(1, 4, "int")]:
        r = rnd(run, c.name)
        spread = [0, 100, 200]
        row = lambda q: " ".join(str(spread[k] + r.randrange(c.keydiv)) for k in q)
        hs, h = [], []
        for a in seqs:
            if c.keydiv == 1:
                # plain numbers: of both signs and all magnitudes
                k0 = [0] if r.random() < 0.6 else []
                spread = sorted(k0 + r.sample([-70000, -500, -257, -256, -200, -100, 1, 100, 255, 256, 257, 512, 65535, 65536, 70001, 20000000], 3 - len(k0)))
            nan = lambda s, q: ["wr %d %d 0 1073741831" % (s, i) for i in range(len(q)) if r.random() < 0.3] if c.elem == "double" and r.random() < 0.3 else []
            mk1 = ["mkr 1 10 0 : %s" % row(a)] + nan(1, a)
            h += ["Q 1", "dt 1"] + mk1 + ["Q 0", "snap", "cmp 1 1"]
            for b in seqs:
                if c.elem != "Tr" and r.random() > (0.4 if not run.thorough else 1):
                    continue
                h += ["Q 1", "dt 2", "mkr 2 10 0 : %s" % row(b)]
                if c.elem == "double":
                    # zeros of the other sign
                    h += ["wr 2 %d 0 0" % i for i, k in enumerate(b) if spread[k] == 0 and r.random() < 0.5]
                h += nan(2, b) + ["Q 0", "snap", "cmp 1 2"]
                if len(h) > 900:
                    hs.append(h)
                    h = ["Q 1"] + mk1 + ["Q 0"]
        hs.append(h)
        jobs += jobs_for(c, hs, groups, LIGHT, 12000)
    # the same contents in different arrangements, and near misses
    for gr, e in zip(graphs(run, [(3, 3, 13), (2, 3, 8), (1, 3, 9), (5, 3, 16)], [(3, 3, 17), (2, 3, 10), (1, 3, 13), (5, 3, 20)]), ("Tr", "double", "int", "Tr")):
        r = rnd(run, gr.S * 10 + gr.B)
        c = Cfg(gr.S, gr.B, e)

        def per(s, n, g):
            up = 100 if c.keydiv > 1 else r.choice([1, 100, 255, 256, 300, 70000])
            vs = [r.randrange(2) * up + r.randrange(c.keydiv) for _ in range(n)]
            fill = ["wr 1 %d 0 %d" % (i, v) for i, v in enumerate(vs)]
            out = []
            for _ in range(3):
                ws = list(vs)
                k = r.randrange(5)
                if k == 1 and ws:
                    ws[r.randrange(n)] += up
                if k == 2 and ws:
                    ws = ws[:r.randrange(n)]
                if k == 3:
                    ws = ws + [r.randrange(2) * up]
                if k == 4 and ws:
                    i = r.randrange(n)
                    ws[i] = ws[i] - up if c.keydiv == 1 else max(0, ws[i] - up)
                mk2 = ["mkr 2 10 0 : %s" % " ".join(map(str, ws))] if r.random() < 0.5 else ["mk 2 10"] + ["push 2 5 %d" % v for v in reversed(ws)]
                out.append(["Q 1"] + fill + mk2 + ["Q 0", "snap", "cmp 1 2", "cmp 2 1", "cmp 1 1", "Q 1", "dt 2", "Q 0"])
            return out
        jobs += jobs_for(c, at_states(gr, r, per, states=pick(r, gr.order, 150 * (8 if run.thorough else 1)), length=900), groups, LIGHT, 26000)
    jobs += large(run, ["compare"], [0, 2, 4], focus=("cmp",))
    run.validate(jobs)


# ------------------------------------------------------------------ C17
@check
def C17(run):
    """Elements moved, allocations and height judged for every transition of SegShape and for edits in containers
    of up to 150000 elements; the global heap is watched as well."""
    run.heap(*([(1, 3, 12), (3, 5, 17)] if run.thorough else [(1, 3, 7)]))
    jobs = []
    for gr in graphs(run):
        jobs += jobs_for(Cfg(gr.S, gr.B), walk_histories(gr, rnd(run, gr.S * 10 + gr.B)), ["cost"], LIGHT)
    # large containers: counters only
    k = 6 if run.thorough else 1
    for c, sizes in [(Cfg(3, 3), [300, 2000]), (Cfg(8, 4), [1000, 4000]), (Cfg(1, 3), [200, 1000]), (Cfg(64, 8, "Pod"), [2000, 9000]), (Cfg(16, 16, "Ctd"), [3000])]:
        r = rnd(run, c.name)
        hs = []
        for n in sizes:
            for _ in range(k):
                g = gens.Gen(r)
                h = ["Q 1", "mkn 1 10 %d 5" % n] + ["ins 1 %d 2 5 0" % r.randrange(n) for _ in range(n // 4)] + ["er 1 %d 0" % r.randrange(n) for _ in range(n // 6)] + ["Q 0", "snap"]
                for _ in range(300):
                    p = r.randrange(2 * n)
                    h.append(r.choice(["ins 1 %d %d 7 0" % (p, r.randrange(5)), "push 1 %d 7" % r.randrange(6), "insa 1 %d %d %d 0" % (p, r.randrange(6), p)]) if r.random() < 0.5
                             else r.choice(["er 1 %d 0" % p, "pop 1 %d" % r.randrange(2)]))
                    if r.random() < 0.04:
                        # hand the container over and back
                        h += r.choice([["mvc 2 1", "mk 3 10", "swp 2 3 %d" % r.randrange(2), "dt 2", "dt 1", "mvca 1 3 11", "dt 3"],
                                       ["mk 2 10", "mva 2 1", "swp 1 2 0", "dt 2"]])
                # runs of edits at one place
                for q in (0, n // 3, n):
                    h += ["ins 1 %d 2 7 0" % q] * 60 + ["er 1 %d 0" % q] * 60
                hs.append(h)
        jobs += jobs_for(c, hs, ["cost"], ("noprobe", "nosegs", "nocont"), 100000, module="CostTrace")
    # hand-overs of whole containers between every size and allocator relation
    for c in (Cfg(3, 3), Cfg(2, 3, "Pod", 2 + 4), Cfg(1, 3, "Tr", 7)):
        r = rnd(run, c.name + "whole")
        jobs += jobs_for(c, whole(run, c.traits, r, [0, 1, 4, 11] + ([40] if run.thorough else []), 1, False), ["cost"], LIGHT, 20000)
    jobs += large(run, ["cost"], [0, 3, 6])
    run.validate(jobs)


# ------------------------------------------------------------------ C18
@check
def C18(run):
    """Every no-throw operation on arrangements of SegShape while every allocation, element copy and the global
    heap fail; the noexcept declarations of instantiations
    with allocators of every declared kind judged by NoexceptTrace."""
    # exception specifications
    exe = run.compile("noexcept", open(os.path.join(vlib.HARN, "noexcept.cpp")).read())
    import subprocess
    t = os.path.join(run.dir, "noexcept.ndjson")
    if subprocess.run([exe, t]).returncode:
        raise CheckError("noexcept table")
    rc, out, gen, dis = run.tlc("NoexceptTrace", "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n", "noexcept", trace=t)
    if "REJECT" in out:
        i = out.index("REJECT")
        raise Violation(out[i:i + 200], {"noexcept.ndjson": open(t).read()})
    if rc != 0:
        raise CheckError(out[-800:])
    run.states += dis
    run.transitions += gen
    run.notes["noexcept_instantiations"] = dis - 1
    # no-throw calls with every allocation and every element copy failing
    jobs = []
    groups = ["out", "contents", "size", "shape", "held", "compare"]
    F = "F 6 1"

    def per(n, g, r, tr):
        L = []
        lab = lambda need: r.choice([10, 11, 20]) if tr & need else r.choice([10, 11])
        for p in range(n):
            L.append([F, "er 1 %d %d" % (p, r.choice([0, 1, 2]))])
        for _ in range(4):
            L.append([F, "err 1 %d %d 0" % (r.randrange(n + 1), r.randrange(n + 1))])
        L.append([F, "pop 1 %d" % r.randrange(2)])
        L.append([F, "clr 1"])
        L.append([F, "idx 1", F, "its 1", F, "seg 1", F, "rev 1", F, "cmp 1 1"])
        mk2 = lambda need: ["Q 1", "mkr 2 %d 0 : %s" % (lab(need), g.vs(r.randrange(10))), "Q 0", "snap"]
        dt = ["Q 1", "dt 2", "Q 0", "snap"]
        L.append(mk2(4 + 8) + ["hold 1 1 0", F, "swp 1 2 %d" % r.randrange(2), "chk 1", F, "cmp 1 2"] + dt)
        for _ in range(2):
            L.append(mk2(2 + 8) + ["hold 1 2 0", F, "mva 1 2", "chk 1"] + dt)
        L.append(["hold 1 1 %d" % r.randrange(n + 1), F, "mvc 2 1", "chk 1", F, "swp 1 2 0"] + dt)
        L.append(["hold 1 1 %d" % r.randrange(n + 1), F, "mvca 2 1 11", "chk 1", F, "mva 1 2"] + dt)
        L.append([F, "mkz 2", F, "mk 3 20", F, "dt 3", F, "dt 2"])
        L.append([F, "dt 1", "mk 1 10"])
        return L
    for gr, tr in zip(graphs(run, [(3, 3, 13), (2, 3, 7), (1, 3, 10), (5, 3, 15), (3, 5, 15), (1, 5, 13)]), (0, 2, 7, 4, 16, 8)):
        r = rnd(run, gr.S * 10 + gr.B)
        states = pick(r, gr.order, 110 * (10 if run.thorough else 1))
        jobs += jobs_for(Cfg(gr.S, gr.B, "Tr", tr), at_states(gr, r, lambda s, n, g: per(n, g, r, tr), states=states), groups, ("nosegs",), 14000)
    jobs += large(run, ["out", "contents"], [0, 3], fail=0.5, focus=("swp", "mva", "mvc", "rmi", "uni", "rev"))
    run.validate(jobs)


# ------------------------------------------------------------------ C19
@check
def C19(run):
    """Every own-element argument at every position of arrangements of SegShape, every overload; large
    containers."""
    jobs = []
    for gr in graphs(run, [(3, 3, 12), (2, 3, 7), (1, 3, 8), (5, 3, 14), (4, 4, 11), (3, 5, 14), (1, 5, 11)], [(3, 3, 15), (2, 3, 9), (1, 3, 12), (5, 3, 17), (4, 4, 14), (3, 5, 16), (1, 5, 14)]):
        r = rnd(run, gr.S * 10 + gr.B)
        sh = share_for(gr, 9000 * (10 if run.thorough else 1), lambda n: n * (n + 1) * 4 + 4 * n + 12 * n)

        def per(s, n, g):
            L = []
            for q in range(n):
                for p in range(n + 1):
                    for mode in (0, 1):
                        L.append(["insa 1 %d %d %d %d" % (p, mode, q, r.choice([0, 1, 2]))])
                    for c in (1, 4):
                        L.append(["insna 1 %d %d %d %d" % (p, c, q, r.choice([0, 1, 2]))])
                for mode in (2, 3, 4, 5):
                    L.append(["insa 1 0 %d %d 0" % (mode, q)])
                for m in (0, 1, n - 1, n, n + 1, n + 7):
                    L.append(["resa 1 %d %d" % (m, q)])
                    L.append(["asna 1 %d %d" % (m, q)])
            return [x for x in L if r.random() < sh]
        jobs += jobs_for(Cfg(gr.S, gr.B), at_states(gr, r, per), BASIC, LIGHT, 14000)
    jobs += large(run, ["contents", "talk"], [0, 2, 6], focus=("dup", "ins1"))
    run.validate(jobs)


# ------------------------------------------------------------------ C20
@check
def C20(run):
    """The same histories under thirty-two combinations of targets, element sizes, categories and allocators, judged
    against one specification; block sizes against the budgets; fan-outs up to 65535 on 150000 elements."""
    jobs = []
    groups = ["contents", "size", "shape", "ret", "out", "budget", "compare", "idx", "held"]
    M = 2 ** 64 - 1
    table = [("Tr", 16, 0, 0, 0), ("Tr", 16, 1, 1, 0), ("Tr", 16, 15, 63, 0), ("Tr", 16, 17, 64, 0), ("Tr", 16, 31, 65, 0), ("Tr", 16, 100, 79, 16),
             ("Pod", 8, 0, 80, 0), ("Pod", 8, 7, 95, 16), ("Pod", 8, 512, 512, 0), ("Pod", 8, 4096, 0, 0), ("Odd<3>", 3, 10, 100, 0), ("Odd<7>", 7, 6, 97, 16),
             ("Odd<100>", 100, 512, 112, 0), ("Odd<700>", 700, 512, 512, 0), ("Weird", 16, 47, 128, 0), ("Greedy", 16, 40, 48, 0), ("Ctd", 8, 30, 1000, 16), ("Ctd", 8, 9, 16, 0),
             ("Mo", 16, 33, 96, 0), ("Pod", 8, 16, M, 0), ("Odd<5>", 5, 100000, 70, 0), ("Pod", 8, 24, 70, -1), ("Tr", 16, 100, 96, -1), ("Ctd", 8, 8, 512, -1), ("Mo", 16, 64, 64, -1),
             ("Tr", 16, 50, 80, 64), ("Tr", 16, 48, 80, 128), ("Pod", 8, 40, 96, 128 + 16 + 7), ("Anch", 16, 48, 80, 0), ("Anch", 16, 33, 64, -1),
             ("int", 4, 16, 80, 0), ("int", 4, 7, 64, 16), ("double", 8, 24, 96, 0), ("Wide", 64, 200, 80, 0)]
    if run.thorough:
        table += [("Tr", 16, s, b, t) for s in (16, 32, 48, 79, 80, 81, 511) for b in (66, 81, 111, 112, 113, 129, 1000) for t in (0, 16)]
    seeds = rnd(run, "same")
    shared = [seeds.randrange(1 << 30) for _ in range(5 if not run.thorough else 12)]
    for e, sz, s, b, tr in table:
        segbudget = max(s, sz)
        nodebudget = max(b, 64) if b < 2000000 else 0
        c = Cfg(max(1, s // sz), 3, e, max(tr, 0), std=tr < 0, seg=str(s) + "u" + ("ll" if s > 2 ** 31 else ""), base=str(b) + ("ull" if b > 2 ** 31 else "u"), judge_base=False)
        r = rnd(run, c.name)
        big = 10 if b < 2 ** 31 else 5
        hs = [gens.mixed(random.Random(x), 90, traits=c.traits, big=big + 6 * (i % 3), probes=0.5, keys=5, tags=c.keydiv) for i, x in enumerate(shared)]
        hs += [gens.singles(random.Random(x), 90, 30 + 40 * (i % 2)) for i, x in enumerate(shared[:3])]
        jobs += jobs_for(c, hs, groups, ("nosegs",), 50000, extra={"SegBudget": segbudget, "NodeBudget": nodebudget})
    jobs += large(run, ["contents", "size", "look", "jump", "ret", "tree", "out"], [1, 2, 5, 7, 8])
    for S, B, e, size in HUGE:
        r = rnd(run, "huge")
        jobs += [dict(cfg=vlib.Big(S, B, e), histories=[big_history(r, size, 14, huge=True)], groups=["contents", "size", "look", "jump", "ret", "tree", "out"], opts=(), module="BigTrace")
                 for _ in range(1 if not run.thorough else 6)]
    run.validate(jobs)


# ------------------------------------------------------------------ C21
def readers(run):
    """Threads observing the same containers: answers judged by ReadersTrace, races by the thread sanitizer."""
    run.later("Readers", "SPECIFICATION Spec\nINVARIANTS Answers Untouched\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NR = %d\n N = 4\n Caching = FALSE\n" % (4 if run.thorough else 3),
              "readers", workers=1)
    src = open(os.path.join(vlib.HARN, "readers.cpp")).read()
    flags = ["-O1", "-pthread"]
    exe = {k: run.pool.submit(run.compile, "readers_" + k, src, None, flags + f) for k, f in (("tsan", ["-fsanitize=thread"]), ("plain", []))}

    def one(seed):
        t = os.path.join(run.dir, "readers%d.ndjson" % seed)
        env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=0 report_bugs=1")
        p = run.sh([exe["tsan"].result(), t, str(seed), "2"], timeout=300, env=env)
        if "FATAL: ThreadSanitizer" in p.stderr or p.returncode not in (0, 66) and "data race" not in p.stderr and "ThreadSanitizer" in p.stderr and "SEGV" not in p.stderr:
            run.notes["thread_sanitizer"] = "not available here"
            p = run.sh([exe["plain"].result(), t, str(seed), "2"], timeout=300)
        lines = open(t).read().splitlines() if os.path.exists(t) else []
        if p.returncode:
            # a crash or a reported race
            lines.append('{"op":"%s","c":[],"t":0,"q":[]}' % ("race" if p.returncode == 66 else "crash"))
            open(t, "w").write("\n".join(lines) + "\n")
        rc, out, gen, dis = run.tlc("ReadersTrace", "SPECIFICATION Spec\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n", "readers%d" % seed, trace=t)
        if "REJECT" in out or rc and "Error:" in out:
            k = out.index("REJECT") if "REJECT" in out else out.index("Error:")
            raise Violation(out[k:k + 200].split("\n")[0], {"readers.ndjson": "\n".join(lines), "report.txt": p.stderr[:6000], "program.cpp": src})
        if rc:
            raise CheckError(out[-800:])
        return gen, dis, len(lines)
    return [run.pool.submit(one, run.seed + 100 * k) for k in range(12 if run.thorough else 2)]


@check
def C21(run):
    """Every byte of the container and its blocks, its iterators and the allocation counters before and after
    every observer; the Readers model explores all interleavings of concurrent readers, real threads' answers are
    judged by ReadersTrace and races reported by the thread sanitizer count as violations."""
    other = lambda g, r: ["Q 1", "mkr 2 10 0 : %s" % g.vs(r.randrange(6)), "Q 0", "snap", "pur 1", "Q 1", "dt 2", "Q 0"]
    futs = readers(run)
    run.validate(view_jobs(run, lambda n, g, r: ["pur 1"] if r.random() < 0.5 else other(g, r), ["pure"], ("nosegs",), 200, 5) + large(run, ["pure"], [0, 2, 4]))
    for f in futs:
        gen, dis, n = f.result()
        run.transitions += gen
        run.states += dis
        run.events += n
        run.traces += 1


# ------------------------------------------------------------------ C22
@check
def C22(run):
    """Source reads, predicate calls with their arguments, and forwarded constructor arguments judged on
    arrangements of SegShape, with failures, single-pass sources, and on large containers."""
    jobs = []
    groups = ["reads", "anomaly"]
    for gr in graphs(run, [(3, 3, 12), (2, 3, 7), (1, 3, 8), (5, 3, 14), (3, 5, 14)], [(3, 3, 15), (2, 3, 9), (1, 3, 12), (5, 3, 17), (3, 5, 16)]):
        r = rnd(run, gr.S * 10 + gr.B)
        kd = lambda: r.choice([0, 0, 6, 7, 8])

        def per(s, n, g):
            L = []
            for _ in range(6):
                p = r.randrange(n + 1)
                L.append(["insr 1 %d %d 0 : %s" % (p, kd(), g.vs(r.choice([0, 1, 2, 5, 9])))])
                L.append(["asr 1 %d : %s" % (kd(), g.vs(r.choice([0, 1, n, n + 1, max(0, n - 1), n + 5])))])
                L.append(["F 3 %d" % r.randrange(1, 14), "insr 1 %d %d 0 : %s" % (p, kd(), g.vs(8)), "F 0 0"])
                L.append(["F 3 %d" % r.randrange(1, 14), "asr 1 %d : %s" % (kd(), g.vs(n + 4)), "F 0 0"])
            for m, k in ((2, 0), (2, 1), (3, 1), (1, 0), (1, 1)):
                L.append(["remif 1 %d %d" % (m, k)])
            for m in (1, 2, 3):
                L.append(["uni 1 %d" % m])
            for f in (0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 15, 20, 21, 22, 25):
                if r.random() < 0.5:
                    L.append(["empf 1 %d %d %d" % (r.randrange(n + 1), f, g.v())])
            L.append(["Q 1", "dt 2", "Q 0", "snap", "mkr 2 10 %d : %s" % (kd(), g.vs(r.randrange(12))), "Q 1", "dt 2", "Q 0"])
            return L
        states = pick(r, gr.order, 60 * (12 if run.thorough else 1))
        jobs += jobs_for(Cfg(gr.S, gr.B), at_states(gr, r, per, states=states), groups, ("noprobe", "nosegs"), 16000)
    r = rnd(run, "mo")
    for c in [Cfg(3, 3, "Mo"), Cfg(4, 5, "Pod")]:
        hs = []
        for _ in range(8):
            g = gens.Gen(r)
            h = []
            for _ in range(10):
                h += ["dt 1", "mkr 1 10 %d : %s" % (r.choice([0, 6, 7, 8]), g.vs(r.randrange(80))), "insr 1 %d %d 0 : %s" % (g.p(), r.choice([0, 6, 7, 8]), g.vs(r.randrange(40))), "remif 1 3 %d" % r.randrange(3), "uni 1 %d" % r.randrange(1, 4),
                      "asr 1 %d : %s" % (r.choice([0, 6, 7, 8]), g.vs(r.randrange(60)))]
            hs.append(h)
        jobs += jobs_for(c, hs, groups, LIGHT)
    jobs += large(run, ["reads"], [0, 1, 2], focus=("insr", "asr", "rmi", "uni"))
    run.validate(jobs)


# ------------------------------------------------------------------ C23
@check
def C23(run):
    """Workload's invariants for every list of positions up to the bound; recorded generator, draw, insertion,
    erasure and accumulation runs judged by WorkloadTrace."""
    fut = run.pool.submit(run.compile, "workload", open(os.path.join(vlib.HARN, "workload.cpp")).read(), None, ["-O1"] if run.thorough else [])
    mc, ms = (5, 3) if run.thorough else (4, 3)
    run.model("Workload", "SPECIFICATION Spec\nINVARIANTS Valid SizeOK Undo SelfInverse Distinct\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxCount = %d\n MaxSize = %d\n" % (mc, ms),
              "MaxCount=%d MaxSize=%d" % (mc, ms), workers=4)
    recorded(run, fut.result(), "WorkloadTrace", 24 if run.thorough else 4)


def recorded(run, exe, module, n):
    """Programs that record runs of code outside the container, judged line by line."""
    def one(seed):
        t = os.path.join(run.dir, "w%d.ndjson" % seed)
        if run.sh([exe, t, str(seed), "8" if run.thorough and seed == run.seed else "1"], timeout=800).returncode:
            raise CheckError("recording harness")
        with open(t) as f:
            lines = f.read().splitlines()
        if lines[-1:] and '"op":"crash"' in lines[-1]:
            # what was being written when it ended is no event
            lines = [x for x in lines[:-1] if x.endswith("}") and x.count("{") == x.count("}")] + lines[-1:]
            with open(t, "w") as f:
                f.write("\n".join(lines) + "\n")
        rc, out, gen, dis = run.tlc(module, "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n", "w%d" % seed, trace=t)
        return lines, rc, out, gen, dis
    for lines, rc, out, gen, dis in run.pool.map(one, [run.seed + 1000 * i for i in range(n)]):
        run.states += dis
        run.transitions += max(0, gen - 1)
        if "REJECT" in out or (rc and "Error:" in out):
            i = out.index("REJECT") if "REJECT" in out else out.index("Error:")
            raise Violation(out[i:i + 300].split("\n")[0], {"event.json": lines[max(0, dis - 1)] if dis - 1 < len(lines) else "", "%s.ndjson" % module: "\n".join(lines)})
        if rc:
            raise CheckError(out[-800:])
        run.events += len(lines)
        run.traces += len(lines)
        if not run.samples:
            run.samples = [x[:400] for x in (lines[1], lines[-1])]


# ------------------------------------------------------------------ C25
@check
def C25(run):
    """Bench's invariants for every workload, fault of the measured container and checksum up to the bound; recorded
    runs of the generator and benchmark programs on right and wrong containers judged by BenchTrace."""
    flags = ["-I" + vlib.REPO] + (["-O1"] if run.thorough else [])
    fut = run.pool.submit(run.compile, "bench", open(os.path.join(vlib.HARN, "bench.cpp")).read(), None, flags)
    mc, ms = (4, 2) if run.thorough else (3, 2)
    run.model("Bench", "SPECIFICATION Spec\nINVARIANTS Judged Fair Sound Valid\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxCount = %d\n MaxSize = %d\n Strides = {1, 3}\n" % (mc, ms),
              "MaxCount=%d MaxSize=%d" % (mc, ms), workers=4)
    recorded(run, fut.result(), "BenchTrace", 16 if run.thorough else 4)


# ------------------------------------------------------------------ C24
@check
def C24(run):
    """SegHeap with the cost of every call counted (StepBound, Costs); basic blocks and comparisons counted in the
    real code on large containers, judged by StepsTrace."""
    run.heap(*([(3, 3, 14), (1, 3, 12), (1, 5, 18), (4, 4, 15)] if run.thorough else [(3, 3, 8), (1, 3, 7), (1, 5, 10)]))
    src = open(os.path.join(vlib.HARN, "steps.cpp")).read()
    flags = ["-fsanitize-coverage=trace-pc-guard"]
    cfgs = [(1, 3), (3, 3), (8, 4), (5, 3), (16, 16), (256, 16), (5, 300), (1, 1)]
    sizes = ["40", "700", "6000", "60000"] + (["500000"] if run.thorough else [])

    def build(c):
        return run.compile("steps_%d_%d" % c, src, extra=flags + ["-DSTEP_S=%d" % c[0], "-DSTEP_B=%d" % c[1]])

    def one(job):
        c, exe, seed, size = job
        tag = "st_%d_%d_%d_%s" % (c + (seed, size))
        t = os.path.join(run.dir, tag + ".ndjson")
        if run.sh([exe, t, str(seed), size], timeout=800).returncode:
            raise CheckError("steps harness")
        cfg = ("SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n S = %d\n B = %d\n" % (c[0], max(3, c[1])))
        rc, out, gen, dis = run.tlc("StepsTrace", cfg, tag, trace=t)
        lines = open(t).read().splitlines()
        os.unlink(t)
        if "REJECT" in out:
            m = re.search(r"event (\d+)", out[out.index("REJECT"):])
            return Violation(out[out.index("REJECT"):][:300].split("\n")[0].rstrip('"'), {
                "program.cpp": src, "spec.cfg": cfg, "event.json": lines[int(m.group(1)) - 1],
                "flags.txt": " ".join(flags + ["-DSTEP_S=%d" % c[0], "-DSTEP_B=%d" % c[1]]),
                "args.txt": "%d %s" % (seed, size), "options": "\nStepsTrace\n"})
        if rc or not lines:
            raise CheckError(out[-800:])
        return len(lines), gen, dis, lines[7]
    exes = list(run.pool.map(build, cfgs))
    for i in range(8 if run.thorough else 1):
        for r in list(run.pool.map(one, [(c, x, run.seed + 1000 * i, z) for c, x in zip(cfgs, exes) for z in reversed(sizes)])):
            if isinstance(r, Violation):
                raise r
            run.events += r[0]
            run.traces += 1
            run.transitions += max(0, r[1] - 1)
            run.states += r[2]
            if len(run.samples) < 3:
                run.samples.append(r[3])
    run.validate([])


def main():
    prop = sys.argv[1]
    run = Run(prop)
    code = 0
    viol = None
    try:
        CHECKS[prop](run)
    except Violation as v:
        viol = v
        run.report(v)
        code = 1
    except CheckError as e:
        print("ERROR: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if code < 2:
            run.finish(violation=viol)
        run.close()
    if code == 0:
        print("OK property=%s events=%d traces=%d states=%d transitions=%d wall=%.1fs"
              % (prop, run.events, run.traces, run.states, run.transitions, __import__("time").time() - run.t0))
    sys.exit(code)


if __name__ == "__main__":
    main()
