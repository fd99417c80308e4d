#!/usr/bin/env python3
"""selftest.py [models] [traces]: shows that the specification is not vacuous.

models: deliberately wrong variants of the modules must be refuted by TLC.
traces: recorded traces of the real container, accepted as they are, must be
rejected after one observation of one event has been falsified; fields that may
be falsified without anyone noticing are listed.
Development aid; no check uses it."""
import concurrent.futures as cf, json, os, random, re, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import gens, vlib

SH = "SPECIFICATION Spec\nINVARIANTS TreeOK HeightBound AllocBound\nPROPERTY SizeOK\nCHECK_DEADLOCK FALSE\nCONSTANTS\n S = 3\n B = 3\n MaxN = 12\n Emit = FALSE\n"
HP = "SPECIFICATION Spec\nINVARIANTS RetOK NeverBad AllocBound NoOrphans Iterators\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\nCONSTANTS\n S = %d\n B = 3\n MaxN = %d\n Fail = TRUE\n"
H3, H1, H5 = HP % (3, 14), HP % (1, 9), HP % (5, 7)
RD = "SPECIFICATION Spec\nINVARIANTS Answers Untouched\nCONSTANTS\n NR = 2\n N = 3\n Caching = %s\n"
WL = "SPECIFICATION Spec\nINVARIANTS Valid SizeOK Undo SelfInverse Distinct\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxCount = 3\n MaxSize = 2\n"
RN = "SPECIFICATION Spec\nINVARIANTS Same Joined Length At Dist Ordered\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = 3\n MaxVal = 3\n"
BN = "SPECIFICATION Spec\nINVARIANTS Judged Fair Sound Valid\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxCount = 3\n MaxSize = 2\n Strides = {1, 3}\n"
# (module checked, module changed, old, new, configuration)
MODELS = [
    ("SegShape", "SegShape", "<< (S + 1) \\div 2, (S + 1) - (S + 1) \\div 2 >>", "<< 1, S >>", SH.replace("S = 3", "S = 5")),
    ("SegShape", "SegShape", "half == (B + 1) \\div 2", "half == 1", SH),
    ("SegShape", "SegShape", "IF W(hh, q[k]) >= Min(hh) THEN q", "IF W(hh, q[k]) >= Min(hh) - 1 THEN q", SH),
    ("SegShape", "SegShape", "IF W(hh, q[k + 1]) > Min(hh)", "IF W(hh, q[k + 1]) > Min(hh) + 1", SH.replace("S = 3", "S = 4")),
    ("SegShape", "SegShape", "ELSE IF Len(d) = 1 THEN [h |-> hh - 1, t |-> d[1]]", "ELSE IF Len(d) = 0 THEN [h |-> hh - 1, t |-> d[1]]", SH),
    # the heap: contents, order, links, counts, unwinding
    ("SegHeap", "SegHeap", "ELSE ShiftUp(MoveAsg(h, s, length - 1, s, length), s, length - 1, index)", "ELSE ShiftUp(MoveAsg(h, s, length - 1, s, length), s, length - 2, index)", H5),
    ("SegHeap", "SegHeap", "Destroy(ShiftDown(H, s, len, it.i), s, len)", "ShiftDown(H, s, len, it.i)", H3),
    ("SegHeap", "SegHeap", "g1 == MoveCons(H, s, SPtr - 1, q, 0)", "g1 == MoveCons(H, s, SPtr - 1, q, 1)", H3),
    ("SegHeap", "SegHeap", "IN IF branch THEN [g EXCEPT !.mem[c].par = n, !.mem[c].pix = i] ELSE g", "IN IF branch THEN [g EXCEPT !.mem[c].par = n] ELSE g", H3),
    ("SegHeap", "SegHeap", "h0 == AddSz(H, n, r.ix - 1, -(r.cz - 1))", "h0 == AddSz(H, n, r.ix - 1, -r.cz)", H3),
    ("SegHeap", "SegHeap", "THEN Go(Free(H, r.seg), \"unwind\", [r EXCEPT !.seg = NIL])", "THEN Go(H, \"unwind\", [r EXCEPT !.seg = NIL])", H3),
    ("SegHeap", "SegHeap", "ELSE IF r.chain # <<>> THEN Go(Free(H, Head(r.chain)), \"unwind\", [r EXCEPT !.chain = Tail(@)])", "ELSE IF r.chain # <<>> THEN Go(Free(H, Head(r.chain)), \"unwind\", [r EXCEPT !.chain = <<>>])", H1),
    ("SegHeap", "SegHeap", "IF ~branch /\\ r.it.k >= BPtr THEN [r.it EXCEPT !.n = a, !.k = @ - BPtr] ELSE r.it", "r.it", H3),
    ("SegHeap", "SegHeap", "THEN Go(SetLen(EntriesDown(H, n, len, r.ix, branch), n, len), \"dec\"", "THEN Go(SetLen(EntriesDown(H, n, len, r.ix, FALSE), n, len), \"dec\"", H3),
    ("SegHeap", "SegHeap", "IN IF branch THEN Go([g EXCEPT !.mem[o].par = NIL, !.mem[o].pix = 0], \"ret\", r)", "IN IF branch THEN Go(g, \"ret\", r)", H1),
    ("SegHeap", "SegHeap", "g2 == AddSz(AddSz(SetLen(g1, q, ql - 1), up, k - 1, -z), up, k, z - 1)", "g2 == AddSz(AddSz(SetLen(g1, q, ql - 1), up, k - 1, -z), up, k, z)", H1),
    ("SegHeap", "SegHeap", "g3 == AddSz([Free(g2, q) EXCEPT !.mem[n].len = len + ql], up, 0, z - 1)", "g3 == AddSz([g2 EXCEPT !.mem[n].len = len + ql], up, 0, z - 1)", H1),
    ("SegHeap", "SegHeap", "ELSE NextBranch(h, it, Nd(h, n).par, Nd(h, n).pix, ht + 1)", "ELSE AtEnd(it)", H1),
    ("SegHeap", "SegHeap", "IF z > c THEN IF ht = 1", "IF z >= c THEN IF ht = 1", H3),
    ("SegHeap", "SegHeap", "[r EXCEPT !.it = [it EXCEPT !.s = q, !.l = 2 * SMin - 1, !.i = @ + SMin, !.k = @ - 1], !.at = n, !.ix = it.k]", "[r EXCEPT !.it = [it EXCEPT !.s = q, !.l = 2 * SMin - 1, !.i = @ + SMin], !.at = n, !.ix = it.k]", H3),
    ("Readers", "Readers", "", "", RD % "TRUE"),
    ("Workload", "Workload", "seq' = EraseAt(seq, idx[Len(idx)], size)", "seq' = EraseAt(seq, idx[1], size)", WL),
    ("Workload", "Workload", "\\E p \\in 0..Len(seq) :", "\\E p \\in 0..(Len(seq) + 1) :", WL),
    ("Bench", "Bench", "IF WalksAgree THEN verdict", "IF TRUE THEN verdict", BN),
    ("Bench", "Bench", "IF given' = got THEN verdict", "IF Len(given') = Len(got) THEN verdict", BN),
    ("Bench", "Bench", "Len(got') = 1 /\\ got'[1] = 1", "Len(got') = 1", BN),
    ("Bench", "Bench", "\\A m \\in 0..1, d", "\\A m \\in {0}, d", BN),
    ("Bench", "Bench", "[] OTHER -> EraseAt(got, p, n)", "[] OTHER -> EraseAt(got, 0, n)", BN),
    ("Bench", "BenchOps", "i \\in 2..(n \\div d)", "i \\in 3..(n \\div d)", BN),
    ("MCRuns", "RunSeq", None, None, RN),
]


def tlc(run, specdir, module, cfg, tag):
    old, vlib.SPEC = vlib.SPEC, specdir
    try:
        return run.tlc(module, cfg, tag, workers=1, timeout=600)
    finally:
        vlib.SPEC = old


def models(run):
    bad = 0
    for k, (mod, ch, old, new, cfg) in enumerate(MODELS):
        if old is None:
            variants = runseq_variants()
        else:
            variants = [(old, new)]
        for j, (o, n) in enumerate(variants):
            d = tempfile.mkdtemp(prefix="self_", dir=run.dir)
            for f in os.listdir(V + "/spec"):
                if f.endswith(".tla"):
                    shutil.copy(V + "/spec/" + f, d)
            t = open(d + "/" + ch + ".tla").read()
            if o not in t:
                print("GONE      %s: %s" % (ch, o))
                bad += 1
                continue
            open(d + "/" + ch + ".tla", "w").write(t.replace(o, n, 1) if o else t)
            rc, out, gen, dis = tlc(run, d, mod, cfg, "m%d_%d" % (k, j))
            m = re.search(r"(Invariant \w+ is violated|Action property[^\n]*is violated|[Tt]emporal properties were violated|Error: [^\n]*)", out)
            ok = rc != 0 and "Parsing or semantic" not in out
            bad += not ok
            print("%-9s %-9s %-60s -> %s" % ("refuted" if ok else "SURVIVES", ch, (o or "Caching")[:60].replace("\n", " "), (m.group(1) if m else "accepted")[:70]), flush=True)
    return bad


def runseq_variants():
    """+ 1, - 1 and comparisons of RunSeq changed one by one, but for those that mean the same."""
    t = open(V + "/spec/RunSeq.tla").read()
    same = ("SortRuns(c) ==", "RJoin(c) ==", "lo ==", "hi ==", "# b[1][1] THEN (IF", "LET n == IF a[1][2] <")
    out = []
    for m in re.finditer(r"^[^\\\n]*?(\+ 1|- 1|<=|<)(?=[ )\]])[^\n]*$", t, re.M):
        line, a = m.group(0), m.group(1)
        i = line.index(a)
        if line[i:i + 2] == "<<" or line[i - 1] == "<" or any(x in line for x in same):
            continue
        out.append((line, line[:i] + {"+ 1": "+ 0", "- 1": "- 0", "<=": "<", "<": "<="}[a] + line[i + len(a):]))
    return out


# ---------------------------------------------------------------- traces
def paths(x, pre=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, pre + (k,))
    elif isinstance(x, list):
        yield pre + ("#",)
        for i, v in enumerate(x):
            yield from paths(v, pre + (i,))
    elif isinstance(x, (int, str)):
        yield pre


def get(x, p):
    for k in p:
        x = x[k]
    return x


def falsify(ev, p, r):
    if p[-1] == "#":
        q = get(ev, p[:-1])
        if q and r.random() < 0.5:
            q.pop(r.randrange(len(q)))
        else:
            q.append(r.choice(q) if q else 0)
    else:
        q = get(ev, p[:-1])
        v = q[p[-1]]
        q[p[-1]] = v + r.choice([-1, 1, 7]) if isinstance(v, int) else v + "x"


def traces(run, per=3):
    SeqG = ["contents", "shape", "size", "tree", "height", "objects", "blocks", "groups", "anomaly", "retuse", "write", "free", "labels", "out", "ret", "held",
            "compare", "idx", "its", "seg", "pure", "copies", "transfer", "cost", "reads", "strong", "strongc", "others"]
    BigG = ["contents", "strong", "out", "ret", "size", "look", "jump", "tree", "mem", "cost", "talk", "compare", "kept", "copies", "reads", "pure", "nav"]
    r = random.Random(7)
    cfg = vlib.Cfg(3, 3, "Tr", 0)
    big = vlib.Big(3, 3, 1)
    run.build([cfg, big])
    h = gens.mixed(r, 160, big=8, fail=0.15, probes=0.4) + ["mkr 1 10 0 : 1 2 3 4 5 6 7 8 9 10 11", "idx 1", "its 1", "seg 1", "pur 1", "cmp 1 2", "insr 1 2 0 0 : 5 6 7", "uni 1 2", "remif 1 2 0", "wr 1 0 0 5"]
    import check
    jobs = [(cfg, "SeqTrace", SeqG, ["H 1"] + h, ("tree",)), (big, "BigTrace", BigG, ["H 1"] + check.big_history(r, 900, 14, 0.3), ())]
    silent = {}
    total = caught = 0
    pool = cf.ThreadPoolExecutor(vlib.CORES)
    for c, module, groups, script, opts in jobs:
        t = run.harness(c, "\n".join(script) + "\n", "self_" + module, opts)
        rows = [json.loads(x) for x in open(t)]
        msg, _, _ = run.judge(c, t, groups, "self_ok", module)
        print("%s: %d events, %s as recorded" % (module, len(rows), msg or "accepted"), flush=True)
        cand = {}
        for i, e in enumerate(rows):
            for p in paths(e):
                key = (e["op"], tuple("*" if isinstance(k, int) else k for k in p))
                cand.setdefault(key, []).append((i, p))
        keys = {}
        for (op, kp), L in cand.items():
            if kp[0] in ("hi", "ev", "h", "op", "in", "w", "fk", "fn"):
                continue
            keys.setdefault(kp, []).append((op, L))
        work = []
        for kp, L in sorted(keys.items()):
            for op, M in r.sample(L, min(len(L), 8)):
                i, p = r.choice(M)
                work.append((kp, op, i, p))

        def one(k, w):
            kp, op, i, p = w
            x = json.loads(json.dumps(rows[:i + 1]))   # later events could only hide it
            falsify(x[i], p, random.Random(k))
            f = os.path.join(run.dir, "c%s%d.ndjson" % (module, k))
            with open(f, "w") as o:
                o.write("".join(json.dumps(e) + "\n" for e in x))
            m, _, _ = run.judge(c, f, groups, "c%s%d" % (module, k), module)
            os.unlink(f)
            return m
        for w, m in zip(work, pool.map(lambda a: one(*a), list(enumerate(work)))):
            total += 1
            if m:
                caught += 1
            else:
                silent.setdefault((module, ".".join(w[0])), []).append(w[1])
    print("falsified observations: %d, rejected: %d" % (total, caught))
    for k, v in sorted(silent.items()):
        print("  not noticed: %s %-12s after %s" % (k[0], k[1], " ".join(sorted(v))))


if __name__ == "__main__":
    run = vlib.Run("SELF")
    what = sys.argv[1:] or ["models", "traces"]
    try:
        bad = models(run) if "models" in what else 0
        if "traces" in what:
            traces(run)
    finally:
        run.close()
    sys.exit(1 if bad else 0)
