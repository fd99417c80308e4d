------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions on large containers, whose contents are runs *)
(* of consecutive values (RunSeq).  One event is a batch of k single edits *)
(* or one bulk call; `done' says how many of the batch were completed when *)
(* an allocation was made to fail.                                         *)
(***************************************************************************)
EXTENDS RunSeq, TreeBounds, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Checks, SegMax, BaseMax

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, c, hist
vars == <<l, c, hist>>

SegMin == (SegMax + 1) \div 2
BaseMin == (BaseMax + 1) \div 2
Slots == 1..2
Other(s) == 3 - s

Chk(e, name, cond) ==
    IF name \notin Checks THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT("REJECT " \o name \o " history " \o ToString(e.h) \o " event " \o ToString(l) \o " op " \o e.op) /\ FALSE

Obs(e) == [s \in Slots |-> e.d[s].c]

\* What each call does: the contents after it, or <<>> for what is not said.
Batch == {"psh", "insk", "popk", "erk", "ins1"}
Removals == {"popk", "erk", "err", "cut", "clr", "mva", "mvc", "swp", "rmi", "srt", "srtg", "uni", "rev"}
NotSaid == {"rnd"}
Said(t, e) ==
    /\ e.op \notin NotSaid
    /\ e.out = "ok" \/ e.op \in Batch
    /\ e.op = "srt" => RDistinct(t[e.a[1]])
    /\ e.op = "mrg" => RDistinct(t[1] \o t[2])
After(t, e) ==
    LET s == e.a[1]
        o == Other(s)
        w == t[s]
        j == e.done
        a == e.a
        Set(x) == [t EXCEPT ![s] = x]
    IN CASE e.op = "psh" -> Set(IF a[2] = 0 THEN RCat(w, RRun(a[4], j)) ELSE RCat(RRun(a[4] + a[3] - j, j), w))
         [] e.op = "insk" -> Set(RIns(w, a[2], IF a[5] = 1 THEN RRun(a[4] + a[3] - j, j) ELSE RRun(a[4], j)))
         [] e.op = "popk" -> Set(IF a[2] = 0 THEN RTake(w, RLen(w) - j) ELSE RDrop(w, j))
         [] e.op = "erk" -> Set(IF a[4] = 0 THEN RDel(w, a[2], j) ELSE RDel(w, a[2] + a[3] - j, j))
         [] e.op = "err" -> Set(RDel(w, a[2], a[3] - a[2]))
         [] e.op = "insr" -> Set(RIns(w, a[2], RRun(a[4], a[3])))
         [] e.op = "asr" -> Set(RRun(a[3], a[2]))
         [] e.op = "cut" -> Set(RTake(w, a[2]))
         [] e.op = "clr" -> Set(<<>>)
         [] e.op = "cpa" -> Set(t[o])
         [] e.op \in {"mva", "mvc"} -> [t EXCEPT ![s] = t[o], ![o] = <<>>]
         [] e.op = "swp" -> [t EXCEPT ![s] = t[o], ![o] = t[s]]
         [] e.op = "spl" -> [t EXCEPT ![s] = RIns(w, a[2], t[o]), ![o] = <<>>]
         [] e.op = "spr" -> [t EXCEPT ![s] = RIns(w, a[2], RSub(t[o], a[3], a[4])), ![o] = RDel(t[o], a[3], a[4] - a[3])]
         [] e.op = "srt" -> Set(RSort(w))
         [] e.op = "srtg" -> Set(RSortBy(w, a[2]))
         [] e.op = "mrgg" -> [t EXCEPT ![s] = RSortBy(RSortBy(w, a[2]) \o RSortBy(t[o], a[2]), a[2]), ![o] = <<>>]
         [] e.op = "mrg" -> [t EXCEPT ![s] = RSort(t[1] \o t[2]), ![o] = <<>>]
         [] e.op = "rmi" -> Set(RRemove(w, a[2], a[3]))
         [] e.op = "uni" -> Set(RUnique(w, a[2]))
         [] e.op = "ins1" /\ Len(a) > 1 -> Set(IF j = 0 THEN w ELSE RIns(w, a[2], Repeat(w, a[2], a[3], j)))
         [] OTHER -> t

\* What the calls say beside the contents they leave
TalkOK(t, e) ==
    LET a == e.a
        w == t[a[1]]
    IN IF e.out # "ok" THEN TRUE
       ELSE CASE e.op = "rev" -> /\ e.x.r = w
                                 /\ w = <<>> \/ e.x.ends = <<RAt(w, RLen(w) - 1), RAt(w, 0), RAt(w, RLen(w) - 1 - RLen(w) \div 2)>>
              [] e.op = "dup" /\ w # <<>> -> /\ e.x.a = RTake(w, a[2])
                                              /\ e.x.b = (IF a[3] = 0 THEN <<>> ELSE <<RAt(w, a[4]), a[3]>>)
                                              /\ e.x.z = RDrop(w, a[2])
              [] e.op = "cpc" -> e.x.c = t[Other(a[1])]
              [] OTHER -> TRUE
\* == # < <= > >=
Six(x) == <<x = 0, x # 0, x < 0, x <= 0, x > 0, x >= 0>>
SixOK(r, x) == r = [k \in 1..6 |-> IF Six(x)[k] THEN 1 ELSE 0]
CompareOK(t, e) ==
    (e.op = "cmp" /\ e.out = "ok") =>
        LET a == e.a
            w == t[a[1]]
            d == IF w = <<>> THEN 0 ELSE IF a[3] = 99 THEN -1 ELSE a[3]   \* the other against this one
        IN SixOK(e.x.u, -d) /\ SixOK(e.x.v, d) /\ SixOK(e.x.t, RCompare(w, t[Other(a[1])]))
\* iterators kept across a move or a swap: <<position, index_of, value, to begin, to end, same, next, back>>
KeptOK(t, e) ==
    LET s == e.a[1]
        Row(w, r) == LET n == RLen(w) IN r = <<r[1], r[1], RAt(w, r[1]), r[1], n - r[1], 3, r[1] + 1, 1>>
    IN e.op \in {"mva", "mvc", "swp"} =>
         /\ \A k \in 1..Len(e.hs) : Row(t[Other(s)], e.hs[k])
         /\ \A k \in 1..Len(e.ht) : Row(t[s], e.ht[k])
         /\ e.cost[1] = 0
\* copies (C13)
CopiesOK(e) ==
    CASE e.op = "cpc" \/ e.op = "cpa" \/ e.op = "cmp" -> TRUE
      [] e.op = "dup" -> Len(e.a) > 1 => e.cp <= e.a[3] + 1
      [] e.op = "ins1" -> e.cost[2] <= 2
      [] OTHER -> e.cp = 0
\* source elements and callbacks (C22)
ReadsOK(t, e) ==
    LET a == e.a
        n == RLen(t[a[1]])
    IN e.out = "ok" =>
       CASE e.op = "insr" -> e.rd[1] = a[3] /\ (a[5] = 1 => e.rd[2] = a[3])
         [] e.op = "asr" -> e.rd[1] = a[2] /\ (a[4] = 1 => e.rd[2] = a[2])
         [] e.op = "rmi" -> e.rd[1] = n
         [] e.op = "uni" -> n > 0 => e.rd[1] <= n - 1
         [] OTHER -> TRUE
\* observations: <<every byte as before, moves, copies, allocations>>
PureOK(e) == e.obs = <<1, 0, 0, 0>>

\* position of the iterator the last call returned
RetOK(e) ==
    LET a == e.a
        j == e.done
    IN CASE e.op = "insk" /\ j = a[3] /\ j > 0 -> e.ret = (IF a[5] = 1 THEN a[2] ELSE a[2] + j - 1)
         [] e.op = "erk" /\ j = a[3] /\ j > 0 -> e.ret = a[2]
         [] e.op = "dup" /\ Len(a) > 1 /\ e.out = "ok" -> e.ret = a[2]
         [] e.op \in {"err", "insr"} /\ e.out = "ok" -> e.ret = a[2]
         [] OTHER -> TRUE

\* lookups by index (C04)
LookOK(o) ==
    /\ \A k \in 1..Len(o.pt) :
         LET r == o.pt[k]
             x == RAt(o.c, r[1])
         IN r[2] = x /\ r[3] = x /\ r[4] = x /\ r[5] = r[1] /\ r[6] = 1
    /\ o.n = RLen(o.c)
\* iterator arithmetic, and walking back (C05)
JumpOK(o) ==
    /\ o.bw = o.c
    /\ \A k \in 1..Len(o.jp) :
         LET r == o.jp[k]
             x == IF r[2] < o.n THEN RAt(o.c, r[2]) ELSE 0
         IN r[3] = r[2] /\ r[4] = r[2] - r[1] /\ r[5] = x /\ r[6] = x /\ r[7] = r[2] /\ r[8] = x /\ r[9] = 7 /\ r[10] = r[1]

\* segment by segment (C06)
RECURSIVE SegAt(_, _, _, _)   \* first position of the segment of position i
SegAt(g, i, k, from) ==
    IF i < from + g[k] * g[k + 1] THEN <<from + ((i - from) \div g[k]) * g[k], from + ((i - from) \div g[k]) * g[k] + g[k]>>
    ELSE SegAt(g, i, k + 2, from + g[k] * g[k + 1])
NavOK(o) ==
    \A k \in 1..Len(o.sn) :
      LET r == o.sn[k]
          q == SegAt(o.sg, r[1], 1, 0)
          b == q[1]
          f == q[2]
      IN r = <<r[1], b, f, f - b, f, f, r[7], f + r[7], f + r[7], b - 1, b - 1, r[12], IF b = 0 THEN -1 ELSE b - 1 - r[12], IF b = 0 THEN -1 ELSE b - 1 - r[12], 3>>

\* segments: <<length, how many in a row, ...>>
RECURSIVE SegSum(_, _)
SegSum(g, k) == IF k > Len(g) THEN 0 ELSE g[k] * g[k + 1] + SegSum(g, k + 2)
RECURSIVE SegCount(_, _)
SegCount(g, k) == IF k > Len(g) THEN 0 ELSE g[k + 1] + SegCount(g, k + 2)
TreeOK(o) ==
    LET K == SegCount(o.sg, 1) IN
    /\ SegSum(o.sg, 1) = o.n
    /\ \A k \in 1..(Len(o.sg) \div 2) : o.sg[2 * k - 1] <= SegMax /\ (K > 1 => o.sg[2 * k - 1] >= SegMin)
    /\ (o.n = 0) = (o.hg = 0)
    /\ (o.hg = 1) = (K = 1)
    /\ o.hg >= 2 => o.n >= FewestElements(o.hg, SegMin, BaseMin) /\ K <= MostSegments(o.hg, BaseMax)
MemOK(e) ==
    LET n1 == e.d[1]
        n2 == e.d[2]
        K1 == SegCount(n1.sg, 1)
        K2 == SegCount(n2.sg, 1)
        b1 == IF n1.hg < 2 THEN <<0, 0>> ELSE NodeCountBounds(K1, K1, n1.hg - 1, BaseMin, BaseMax)
        b2 == IF n2.hg < 2 THEN <<0, 0>> ELSE NodeCountBounds(K2, K2, n2.hg - 1, BaseMin, BaseMax)
    IN /\ e.blk[1] = K1 + K2
       /\ e.blk[3] = 0
       /\ b1[1] + b2[1] <= e.blk[2] /\ e.blk[2] <= b1[2] + b2[2]
       /\ e.live >= 0 => e.live = n1.n + n2.n
CostOK(e) ==
    /\ e.op \in Batch => /\ e.cost[1] <= 4 * SegMax + 12
                         /\ e.cost[2] <= SegMax + 6
                         /\ e.cost[3] <= 1
    /\ e.op \in {"popk", "erk"} => e.cost[4] = 0
    /\ e.op = "swp" => e.cost[1] = 0
OutOK(e) == (e.out = "ok") = (e.hit = 0) /\ (e.out # "ok" => e.op \notin Removals)

Init == l = 1 /\ c = [s \in Slots |-> <<>>] /\ hist = 0

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           t == IF e.h # hist THEN [s \in Slots |-> <<>>] ELSE c
       IN /\ hist' = e.h
          /\ IF e.op \in {"crash", "hang"}
             THEN PrintT("REJECT " \o e.op \o " history " \o ToString(e.h) \o " event " \o ToString(l) \o " op " \o e.in) /\ FALSE
             ELSE IF e.op = "end"
             THEN Chk(e, "mem", e.blk = <<0, 0, 0>> /\ e.live <= 0) /\ c' = c
             ELSE /\ c' = Obs(e)
                  /\ Chk(e, "contents", Said(t, e) => Obs(e) = After(t, e))
                  /\ Chk(e, "strong", e.out # "ok" /\ Said(t, e) => Obs(e) = After(t, e))
                  /\ Chk(e, "out", OutOK(e))
                  /\ Chk(e, "ret", RetOK(e))
                  /\ Chk(e, "size", \A s \in Slots : e.d[s].n = RLen(e.d[s].c))
                  /\ Chk(e, "look", \A s \in Slots : LookOK(e.d[s]))
                  /\ Chk(e, "jump", \A s \in Slots : JumpOK(e.d[s]))
                  /\ Chk(e, "tree", \A s \in Slots : TreeOK(e.d[s]))
                  /\ Chk(e, "mem", MemOK(e))
                  /\ Chk(e, "cost", CostOK(e))
                  /\ Chk(e, "talk", TalkOK(t, e))
                  /\ Chk(e, "compare", CompareOK(t, e))
                  /\ Chk(e, "kept", KeptOK(t, e))
                  /\ Chk(e, "copies", CopiesOK(e))
                  /\ Chk(e, "reads", ReadsOK(t, e))
                  /\ Chk(e, "pure", PureOK(e))
                  /\ Chk(e, "nav", \A s \in Slots : NavOK(e.d[s]))

Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
