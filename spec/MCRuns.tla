------------------------------- MODULE MCRuns -------------------------------
(***************************************************************************)
(* RunSeq against plain sequences: every sequence over a few values        *)
(* reachable by edits, as runs and as itself, side by side.                *)
(***************************************************************************)
EXTENDS RunSeq, Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, MaxVal

VARIABLES r, s, last

RECURSIVE Flat(_)
Flat(c) == IF c = <<>> THEN <<>> ELSE [i \in 1..c[1][2] |-> c[1][1] + i - 1] \o Flat(Tail(c))
Vals == 0..MaxVal
Distinct == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Up(v, n) == [i \in 1..n |-> v + i - 1]

Init == r = <<>> /\ s = <<>> /\ last = "start"
Ins == \E p \in 0..Len(s), v \in Vals, n \in 0..2 :
         /\ Len(s) + n <= MaxLen
         /\ v + n <= MaxVal + 1
         /\ r' = RIns(r, p, RRun(v, n))
         /\ s' = SubSeq(s, 1, p) \o Up(v, n) \o SubSeq(s, p + 1, Len(s))
         /\ last' = "ins"
Del == \E p \in 0..Len(s), k \in 0..Len(s) :
         /\ p + k <= Len(s)
         /\ r' = RDel(r, p, k)
         /\ s' = SubSeq(s, 1, p) \o SubSeq(s, p + k + 1, Len(s))
         /\ last' = "del"
Sub == \E p, q \in 0..Len(s) :
         /\ p <= q
         /\ r' = RSub(r, p, q)
         /\ s' = SubSeq(s, p + 1, q)
         /\ last' = "sub"
Sort == /\ Distinct
        /\ r' = RSort(r)
        /\ s' = SortSeq(s, LAMBDA x, y : x < y)
        /\ last' = "sort"
Remove == \E a, b \in 0..(MaxVal + 1) :
         /\ a <= b
         /\ r' = RRemove(r, a, b)
         /\ s' = SelectSeq(s, LAMBDA x : ~(a <= x /\ x < b))
         /\ last' = "remove"
RECURSIVE Uniq(_, _, _)
Uniq(q, k, g) == IF q = <<>> THEN <<>> ELSE (IF q[1] \div k = g THEN <<>> ELSE <<q[1]>>) \o Uniq(Tail(q), k, q[1] \div k)
Unique == \E k \in 1..(MaxVal + 1) :
         /\ r' = RUnique(r, k)
         /\ s' = Uniq(s, k, -1)
         /\ last' = "unique"
RECURSIVE Again(_, _, _, _)
Again(q, p, i, k) == IF k = 0 THEN q ELSE Again(SubSeq(q, 1, p) \o <<q[i + 1]>> \o SubSeq(q, p + 1, Len(q)), p, i, k - 1)
Copies == \E p \in 0..Len(s), i \in 0..(Len(s) - 1), k \in 1..2 :
         /\ Len(s) + k <= MaxLen
         /\ r' = RIns(r, p, Repeat(r, p, i, k))
         /\ s' = Again(s, p, i, k)
         /\ last' = "copies"
RECURSIVE Stable(_, _, _)   \* groups one after the other
Stable(q, k, g) == IF g > MaxVal THEN <<>> ELSE SelectSeq(q, LAMBDA x : x \div k = g) \o Stable(q, k, g + 1)
SortBy == \E k \in 1..(MaxVal + 1) :
         /\ r' = RSortBy(r, k)
         /\ s' = Stable(s, k, 0)
         /\ last' = "sortby"
Next == SortBy \/ Ins \/ Del \/ Sub \/ Sort \/ Remove \/ Unique \/ Copies
Spec == Init /\ [][Next]_<<r, s, last>>

Same == Flat(r) = s
Joined == \A k \in 1..Len(r) : r[k][2] > 0 /\ (k < Len(r) => r[k][1] + r[k][2] # r[k + 1][1])
Length == RLen(r) = Len(s)
At == \A p \in 0..(Len(s) - 1) : RAt(r, p) = s[p + 1]
Dist == RDistinct(r) = Distinct
RECURSIVE Runs(_)
Runs(q) == IF q = <<>> THEN <<>> ELSE RCat(<< <<q[1], 1>> >>, Runs(Tail(q)))
RECURSIVE Order(_, _)
Order(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
               ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Order(Tail(a), Tail(b))
Near == {SubSeq(s, p, q) : p, q \in 1..Len(s)} \cup {[s EXCEPT ![p] = v] : p \in 1..Len(s), v \in Vals} \cup {Append(s, v) : v \in Vals}
Ordered == \A q \in Near : RCompare(r, Runs(q)) = Order(s, q) /\ RCompare(Runs(q), r) = Order(q, s)
View == <<r, s>>
=============================================================================
