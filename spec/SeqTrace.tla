------------------------------ MODULE SeqTrace ------------------------------
(***************************************************************************)
(* Checks a recorded execution of the real container against Seq.          *)
(* Trace is a sequence of events written by the harness, one per call; it  *)
(* is accepted iff every event is a step of the specification whose        *)
(* observable results agree with what was observed.  Checks names the      *)
(* groups of observations a property judges; where the contents are not    *)
(* judged they are adopted from the observation, so that each property's   *)
(* check reports violations of that property.                              *)
(***************************************************************************)
EXTENDS Seq, Json, IOUtils

CONSTANTS
    Checks,       \* set of names of enabled groups
    SegMax,       \* elements per segment
    BaseMax,      \* entries per index node (0: not judged)
    Tracked,      \* element type keeps an object ledger
    SegBudget,    \* largest element block in bytes (0: not judged)
    NodeBudget    \* largest index block in bytes (0: not judged)

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l, prev
tvars == <<vars, l, prev>>

SegMin == (SegMax + 1) \div 2
BaseMin == (BaseMax + 1) \div 2
On(name) == name \in Checks

\* a named, reported conjunct
Chk(e, name, cond) ==
    IF ~On(name) THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT("REJECT " \o name \o " history " \o ToString(e.hi) \o " event " \o ToString(e.ev) \o " op " \o e.op) /\ FALSE

-----------------------------------------------------------------------------
\* Observations of a slot
Obs(e, s) == IF s <= Len(e.d) THEN e.d[s] ELSE [u |-> 0]
IsUp(e, s) == Obs(e, s).u = 1
ObsVal(e) == [s \in Slots |-> IF IsUp(e, s) THEN Obs(e, s).c ELSE <<>>]
ObsUp(e) == [s \in Slots |-> IsUp(e, s)]
ObsAl(e) == [s \in Slots |-> IF IsUp(e, s) THEN Obs(e, s).a ELSE 0]
LiveSlots(e) == {s \in 1..Len(e.d) : e.d[s].u = 1}

RECURSIVE SumLen(_, _)
SumLen(v, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN Len(v[s]) + SumLen(v, S \ {s})

-----------------------------------------------------------------------------
\* The balanced counted tree (C07).  sg: segments in order <<block, offset, length>>;
\* nd: index nodes in preorder.
SegSizes(o) == [i \in 1..Len(o.sg) |-> o.sg[i][3]]
RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
Total(q) == SumTo(q, Len(q))

\* Largest and smallest number of elements of a tree of height h.
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE IF b > 1 /\ k > 24 THEN 2000000000 ELSE
             LET r == Pow(b, k - 1) IN IF r > 2000000000 \div b THEN 2000000000 ELSE r * b
MinSize(h) == IF h = 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 2 * Pow(BaseMin, h - 2) * SegMin
MaxSegs(h) == IF h <= 1 THEN h ELSE Pow(BaseMax, h - 1)

SegmentsOK(o) ==
    /\ Total(SegSizes(o)) = o.n
    /\ \A i \in 1..Len(o.sg) :
         /\ o.sg[i][2] = 0
         /\ o.sg[i][3] <= SegMax
         /\ (Len(o.sg) > 1 => o.sg[i][3] >= SegMin)
    /\ Cardinality({o.sg[i][1] : i \in 1..Len(o.sg)}) = Len(o.sg)

HeightOK(o) ==
    /\ (o.n = 0) = (o.h = 0)
    /\ (o.h = 0) = (Len(o.sg) = 0)
    /\ (o.h = 1) = (Len(o.sg) = 1)
    /\ o.h >= 2 => /\ o.n >= MinSize(o.h)
                   /\ Len(o.sg) <= MaxSegs(o.h)

\* Index nodes: links, counts and occupancy.
NodesOK(o) ==
    IF o.nn < 0 THEN TRUE
    ELSE IF o.h < 2 THEN Len(o.nd) = 0
    ELSE LET nd == o.nd
             N == Len(nd)
             At(id) == CHOOSE k \in 1..N : nd[k].id = id
             Ids == {nd[k].id : k \in 1..N}
             Leaves == SelectSeq(nd, LAMBDA x : x.d = o.h - 2)
         IN /\ N >= 1
            /\ Cardinality(Ids) = N
            /\ nd[1].pa = -1 /\ nd[1].d = 0 /\ nd[1].px = 0
            /\ Total(nd[1].sz) = o.n
            /\ \A k \in 1..N :
                 LET x == nd[k] IN
                 /\ Len(x.ch) = Len(x.sz)
                 /\ Len(x.ch) <= BaseMax
                 /\ Len(x.ch) >= (IF k = 1 THEN 2 ELSE BaseMin)
                 /\ x.d < o.h - 2 =>
                      \A i \in 1..Len(x.ch) :
                        /\ x.ch[i] \in Ids
                        /\ LET y == nd[At(x.ch[i])]
                           IN y.pa = x.id /\ y.px = i - 1 /\ y.d = x.d + 1 /\ Total(y.sz) = x.sz[i]
            \* the leaves list the segments, in order, with their sizes
            /\ LET RECURSIVE Cat(_, _)
                   Cat(q, k) == IF k > Len(q) THEN <<>>
                                ELSE [i \in 1..Len(q[k].ch) |-> <<q[k].ch[i], q[k].sz[i]>>] \o Cat(q, k + 1)
               IN Cat(Leaves, 1) = [i \in 1..Len(o.sg) |-> <<o.sg[i][1], o.sg[i][3]>>]
            /\ \A k \in 1..N : nd[k].d <= o.h - 2

TreeOK(e) == \A s \in LiveSlots(e) : LET o == Obs(e, s) IN SegmentsOK(o) /\ HeightOK(o) /\ (BaseMax > 0 => NodesOK(o))

\* Bounds on the number of index nodes when their contents cannot be read:
\* every level is at least half full.
RECURSIVE NodeBounds(_, _, _)
NodeBounds(lo, hi, k) ==  \* children in [lo,hi], k levels above them
    IF k = 0 THEN <<0, 0>>
    ELSE LET l1 == IF k = 1 THEN 1 ELSE (lo + BaseMax - 1) \div BaseMax
             h1 == IF k = 1 THEN 1 ELSE hi \div BaseMin
             r == NodeBounds(l1, h1, k - 1)
         IN <<l1 + r[1], h1 + r[2]>>
RECURSIVE SumNodeBounds(_, _)
SumNodeBounds(e, S) ==
    IF S = {} THEN <<0, 0>>
    ELSE LET s == CHOOSE x \in S : TRUE
             o == Obs(e, s)
             b == IF o.h < 2 THEN <<0, 0>> ELSE NodeBounds(Len(o.sg), Len(o.sg), o.h - 1)
             r == SumNodeBounds(e, S \ {s})
         IN <<b[1] + r[1], b[2] + r[2]>>

-----------------------------------------------------------------------------
\* Ledgers (C08, C12)
RECURSIVE SumSegs(_, _, _)
SumSegs(e, S, g) ==
    IF S = {} THEN 0
    ELSE LET s == CHOOSE x \in S : TRUE
         IN (IF g = -1 \/ Grp(Obs(e, s).a) = g THEN Len(Obs(e, s).sg) ELSE 0) + SumSegs(e, S \ {s}, g)
RECURSIVE SumNodes(_, _, _)
SumNodes(e, S, g) ==
    IF S = {} THEN 0
    ELSE LET s == CHOOSE x \in S : TRUE
         IN (IF g = -1 \/ Grp(Obs(e, s).a) = g THEN Len(Obs(e, s).nd) ELSE 0) + SumNodes(e, S \ {s}, g)

ObjectsOK(e) ==
    LET total == SumLen(ObsVal(e), LiveSlots(e)) IN
    /\ e.led.at = total
    /\ Tracked => e.led.live = total
    /\ e.led.hk >= 0 => e.led.hk = total
    /\ e.an = <<>>

BlocksOK(e) ==
    /\ e.led.be = SumSegs(e, LiveSlots(e), -1)
    /\ IF e.led.opq = 0 THEN e.led.bn = SumNodes(e, LiveSlots(e), -1)
       ELSE BaseMax > 0 => LET b == SumNodeBounds(e, LiveSlots(e)) IN b[1] <= e.led.bn /\ e.led.bn <= b[2]
    /\ e.an = <<>>

GroupsOK(e) ==
    /\ \A s \in LiveSlots(e) : LET o == Obs(e, s) IN \A i \in 1..Len(o.bg) : o.bg[i] = Grp(o.a)
    /\ \A i \in 1..Len(e.led.gr) :
         LET g == e.led.gr[i] IN
         /\ g[2] = SumSegs(e, LiveSlots(e), g[1])
         /\ e.led.opq = 0 => g[3] = SumNodes(e, LiveSlots(e), g[1])
    /\ \A s \in LiveSlots(e) : LET o == Obs(e, s) IN \A i \in 1..Len(o.nd) : o.nd[i].g = Grp(o.a)

-----------------------------------------------------------------------------
\* Returned iterators (C03, C11)
ProbeOK(e, c, p) ==
    /\ e.rp = p
    /\ e.pr.p = p
    /\ e.pr.eq = 63
    /\ e.pr.fw = SubSeq(c, p + 1, Len(c))
    /\ e.pr.bw = Rev(SubSeq(c, 1, p))

\* Indexed access (C04)
IdxOK(e, c) ==
    LET n == Len(c) IN
    /\ \A r \in Range(e.x[1]) : r = Iota(n)
    /\ \A r \in Range(e.x[2]) : r = c
    /\ \A r \in Range(e.x[3]) : r = [i \in 1..(n + 3) |-> IF i - 1 < n THEN i - 1 ELSE n]
    /\ \A r \in Range(e.x[4]) :
         r = << n, B(n = 0), n, n, 0, n - 1, IF n = 0 THEN -1 ELSE 0, IF n = 0 THEN -1 ELSE n - 1,
                IF n = 0 THEN -1 ELSE n - 1, 0, 0, 1 >>

\* Iterator arithmetic (C05).  Rows are written as runs of consecutive integers.
ItsOK(e, n) ==
    LET R(k) == IF k = 0 THEN <<>> ELSE << <<0, k>> >> IN
    /\ \A r \in Range(e.x[1]) : r = R(n + 1)
    /\ \A r \in Range(e.x[2]) : r = R(n)
    /\ \A r \in Range(e.x[3]) : r = R(n)
    /\ \A r \in Range(e.x[4]) : r = R(n + 1)
    /\ e.x[5] = << IF n = 0 THEN <<>> ELSE <<2 + 4 + 8>>, <<1 + 8 + 32>>, IF n = 0 THEN <<>> ELSE <<2 + 16 + 32>> >>
    /\ \A r \in Range(e.x[6]) : r = R(n)

\* Segment navigation (C06)
SegOf(o) ==  \* for every position 0..n the <<first, end>> of its segment
    LET n == o.n
        K == Len(o.sg)
        Start(k) == SumTo(SegSizes(o), k - 1)
    IN [i \in 1..(n + 1) |->
          LET k == IF i = n + 1 THEN K
                   ELSE CHOOSE j \in 1..K : Start(j) <= i - 1 /\ i - 1 < Start(j) + o.sg[j][3]
          IN <<Start(k), Start(k) + o.sg[k][3]>>]
SegOK(e, o) ==
    IF o.n = 0 THEN TRUE
    ELSE LET n == o.n
             t == SegOf(o)
         IN /\ \A r \in Range(e.x[1]) : r = [i \in 1..(n + 1) |-> t[i][1]]
            /\ \A r \in Range(e.x[2]) : r = [i \in 1..(n + 1) |-> i - 1]
            /\ \A r \in Range(e.x[3]) : r = [i \in 1..(n + 1) |-> t[i][2]]
            /\ \A r \in Range(e.x[6]) : r = Rep(n + 1, 1)
            /\ \A r \in Range(e.x[4]) : r = [i \in 1..n |-> t[i][2]]
            /\ \A r \in Range(e.x[5]) : r = [i \in 1..(n + 1) |-> IF t[i][1] > 0 THEN t[i][1] - 1 ELSE -100]
            /\ e.x[7] = [i \in 1..n |-> <<t[i][2]>>]
            /\ e.x[8] = [i \in 1..n |-> IF t[i][1] > 0 THEN <<t[i][1] - 1>> ELSE <<>>]

-----------------------------------------------------------------------------
\* Element and resource counters, in the order the harness writes them.
kCopy == 1
kMove == 2
kDef == 3
kConv == 4
kCAssign == 5
kMAssign == 6
kAllocE == 7
kAllocN == 8
kFreeE == 9
kFreeN == 10
kMaxE == 14
kMaxN == 15
kHeap == 16
Copies(e) == e.k[kCopy] + e.k[kCAssign]
Moves(e) == e.k[kMove] + e.k[kMAssign]
Allocs(e) == e.k[kAllocE] + e.k[kAllocN] + e.k[kHeap]   \* also past the allocator

\* C13: copies only where a copy was asked for
CopiesAllowed(t, e) ==
    LET a == e.a IN
    CASE e.op = "ins" -> IF a[3] = 0 THEN 2 ELSE 0
      [] e.op = "push" -> IF a[2] \in {0, 3} THEN 2 ELSE 0
      [] e.op = "insa" -> 2
      [] e.op = "empf" -> 0
      [] e.op \in {"insn", "insna"} -> a[3] + 1
      [] e.op \in {"asn", "asna", "resv", "resa"} -> a[2] + 1
      [] e.op = "mkn" -> a[3] + 1
      [] e.op \in {"insr", "mkr"} -> IF a[3] \in {0, 3, 6, 7, 8} THEN 0 ELSE Len(e.vs)
      [] e.op = "asr" -> IF a[2] \in {0, 3, 6, 7, 8} THEN 0 ELSE Len(e.vs)
      [] e.op = "inss" -> a[5] - a[4]
      [] e.op \in {"cpc", "cpca", "cpa"} -> Len(t.v[a[2]])
      [] e.op = "pur" -> 1000000
      [] OTHER -> 0

\* C11, C17: handing a container over touches no element
TransferOK(t, e) ==
    (e.op \in {"mvc", "swp"} \/ (e.op = "mvca" /\ SameAlloc(e.a[3], t.l[e.a[2]]))
       \/ (e.op = "mva" /\ (POCMA \/ SameAlloc(t.l[e.a[1]], t.l[e.a[2]])))) =>
      Moves(e) + Copies(e) + e.k[kDef] + e.k[kConv] + Allocs(e) = 0

\* C17: a single edit
EditOps == {"ins", "push", "insa", "er", "pop", "empf", "eh", "ih"}
CostOK(t, e) ==
    /\ e.op \in EditOps =>
         /\ Moves(e) <= 4 * SegMax + 12
         /\ e.k[kCopy] + e.k[kConv] + e.k[kDef] + e.k[kCAssign] <= SegMax + 6
         /\ e.op \in {"er", "pop", "eh"} => Allocs(e) = 0
         /\ e.op \notin {"er", "pop", "eh"} =>
               \A s \in (IF e.op = "ih" THEN {e.a[2]} ELSE {e.a[1]}) :
                  s <= Len(prev) /\ prev[s].u = 1 => Allocs(e) <= prev[s].h + 1
    /\ TransferOK(t, e)

\* calls whose source notes its reads
Watched(e) == (e.op \in {"insr", "mkr"} /\ e.a[3] \in {0, 6, 7, 8}) \/ (e.op = "asr" /\ e.a[2] \in {0, 6, 7, 8})
\* C22: each source element read once, in order; predicate calls
ReadsOK(t, e) ==
    /\ Watched(e) => e.rd = Iota(Len(e.vs))
    /\ e.op = "remif" =>
         LET w == t.v[e.a[1]] IN
         /\ Len(e.rd) = Len(w)
         /\ \A x \in Range(w) : Count(e.rd, x) = Count(w, x)
    /\ e.op = "uni" /\ e.a[2] > 0 =>
         LET w == t.v[e.a[1]]
             n == Len(w)
         IN /\ Len(e.rd) <= 2 * (IF n = 0 THEN 0 ELSE n - 1)
            /\ \A k \in 1..(Len(e.rd) \div 2) :
                 \E i, j \in 1..n : i < j /\ w[i] = e.rd[2 * k - 1] /\ w[j] = e.rd[2 * k]
    /\ e.op = "empf" => e.rd = <<IF e.a[3] % 10 = 6 THEN 1 ELSE (e.a[3] % 10) + 10>>
\* a failing range call has read a prefix
ReadsPrefixOK(e) ==
    Watched(e) =>
      /\ Len(e.rd) <= Len(e.vs) /\ e.rd = Iota(Len(e.rd))

PurOK(e) == e.x = << << <<1, 0, 1, 1>> >> >>

-----------------------------------------------------------------------------
CmpOps == {"mrg", "srt", "uni", "rem", "remif", "cmp"}
OutOK(t, e) ==
    /\ e.out # "ok" => /\ e.hit = 1
                      /\ \/ e.out \in {"alloc", "copy"} /\ MayThrow(t, e)
                         \/ e.out = "cmp" /\ e.op \in CmpOps
    \* the failure of a single-element call reaches the caller
    /\ e.out = "ok" /\ e.op \in Strong => e.hit = 0

\* all groups that do not depend on whether the call succeeded
Common(e, nv) ==
    /\ Chk(e, "size", \A s \in LiveSlots(e) : Obs(e, s).n = Len(Obs(e, s).c) /\ "iteration length differs from size()" \notin Range(e.an))
    /\ Chk(e, "tree", TreeOK(e))
    /\ Chk(e, "height", \A s \in LiveSlots(e) : HeightOK(Obs(e, s)) /\ SegmentsOK(Obs(e, s)))
    /\ Chk(e, "objects", ObjectsOK(e))
    /\ Chk(e, "blocks", BlocksOK(e))
    /\ Chk(e, "groups", GroupsOK(e))
    /\ Chk(e, "anomaly", e.an = <<>>)
    /\ Chk(e, "budget", (SegBudget > 0 => e.k[kMaxE] <= SegBudget) /\ (NodeBudget > 0 => e.k[kMaxN] <= NodeBudget))

Success(t, e) ==
    LET eff == Eff(t, e)
        nv == ObsVal(e)
        rs == IF eff.r >= 0 THEN RetSlot(t, e) ELSE 0
    IN /\ Chk(e, "shape", ObsUp(e) = eff.st.u)
       /\ Chk(e, "contents", \A s \in Slots : s \notin eff.free => ObsVal(e)[s] = eff.st.v[s])
       /\ (e.w >= 7 => Chk(e, "retuse", \A s \in Slots : s \notin eff.free => ObsVal(e)[s] = eff.st.v[s]))
       /\ (e.op = "wr" => Chk(e, "write", \A s \in Slots : ObsVal(e)[s] = eff.st.v[s]))
       /\ Chk(e, "free", \A s \in eff.free : Range(ObsVal(e)[s]) \subseteq FailVals(t, e))
       /\ Chk(e, "labels", ObsAl(e) = eff.st.l)
       /\ Chk(e, "out", OutOK(t, e))
       /\ (eff.r >= 0 => Chk(e, "ret", ProbeOK(e, ObsVal(e)[rs], eff.r)))
       /\ (e.op = "chk" => Chk(e, "held", ProbeOK(e, ObsVal(e)[rs], eff.r)))
       /\ (e.op = "cmp" => Chk(e, "compare", CompareOK(e.r, t.v[e.a[1]], t.v[e.a[2]])))
       /\ (e.op = "idx" => Chk(e, "idx", IdxOK(e, ObsVal(e)[e.a[1]])))
       /\ (e.op = "its" => Chk(e, "its", ItsOK(e, Len(ObsVal(e)[e.a[1]]))))
       /\ (e.op = "seg" => Chk(e, "seg", SegOK(e, Obs(e, e.a[1]))))
       /\ (e.op = "pur" => Chk(e, "pure", PurOK(e)))
       /\ Chk(e, "copies", Copies(e) <= CopiesAllowed(t, e))
       /\ Chk(e, "transfer", TransferOK(t, e))
       /\ Chk(e, "cost", CostOK(t, e))
       /\ Chk(e, "reads", ReadsOK(t, e))
       /\ Common(e, nv)
       /\ val' = nv
       /\ up' = ObsUp(e)
       /\ al' = ObsAl(e)
       /\ its' = eff.st.i

\* What a strong call must leave as it was: contents, memory, structure.
SameSlot(o, p) == o.u = p.u /\ (o.u = 1 => o.n = p.n /\ o.h = p.h /\ o.c = p.c /\ o.sg = p.sg /\ o.nd = p.nd /\ o.a = p.a)
Unchanged(e, S) == \A s \in S : SameSlot(Obs(e, s), IF s <= Len(prev) THEN prev[s] ELSE [u |-> 0])

Failure(t, e) ==
    LET T == Touched(e)
    IN /\ Chk(e, "out", OutOK(t, e))
       /\ Chk(e, "shape", ObsUp(e) = t.u)
       /\ Chk(e, "strong", e.op \in Strong => Unchanged(e, Slots))
       /\ Chk(e, "strongc", e.op \in Strong => \A s \in Slots : ObsVal(e)[s] = t.v[s])
       /\ Chk(e, "others", \A s \in Slots \ T : ObsVal(e)[s] = t.v[s])
       /\ Chk(e, "others", \A s \in T : Range(ObsVal(e)[s]) \subseteq FailVals(t, e))
       /\ Chk(e, "labels", e.op # "cpa" => ObsAl(e) = t.l)
       /\ Chk(e, "reads", ReadsPrefixOK(e))
       /\ Common(e, ObsVal(e))
       /\ val' = ObsVal(e)
       /\ up' = ObsUp(e)
       /\ al' = ObsAl(e)
       /\ its' = FailIts(t, e)

Adopt(e) ==
    /\ Common(e, ObsVal(e))
    /\ val' = ObsVal(e)
    /\ up' = ObsUp(e)
    /\ al' = ObsAl(e)
    /\ its' = InitIts

Broken == {"crash", "hang", "exit", "compile"}

TraceInit == Init /\ l = 1 /\ prev = <<>>

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
           t0 == IF e.ev = 1 THEN [v |-> InitVal, u |-> InitUp, l |-> InitAl, i |-> InitIts] ELSE St
       IN IF e.op \in Broken
          THEN /\ PrintT("REJECT " \o e.op \o " history " \o ToString(e.hi) \o " event 0 op " \o e.op)
               /\ FALSE
          ELSE /\ l' = l + 1
               /\ prev' = e.d
               /\ IF e.op = "snap" THEN Adopt(e)
                  ELSE IF ~InContract(t0, e) THEN Adopt(e)
                  ELSE IF e.out = "ok" THEN Success(t0, e)
                  ELSE Failure(t0, e)

TraceSpec == TraceInit /\ [][TraceNext]_tvars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
