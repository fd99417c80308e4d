------------------------------- MODULE RunSeq -------------------------------
(***************************************************************************)
(* Sequences of integers written as runs of consecutive values: <<v, n>>   *)
(* stands for v, v+1, ..., v+n-1.  No two neighbouring runs can be joined, *)
(* so equal sequences have equal run sequences.  This is what makes        *)
(* containers of a hundred thousand elements cheap to specify; that the    *)
(* operators do to runs what SeqOps does to sequences is checked by MCRuns.*)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

RECURSIVE RSum(_, _)
RSum(c, k) == IF k = 0 THEN 0 ELSE c[k][2] + RSum(c, k - 1)
RLen(c) == RSum(c, Len(c))

RECURSIVE RFind(_, _, _)   \* <<run, offset>> of position p
RFind(c, p, k) == IF p < c[k][2] THEN <<k, p>> ELSE RFind(c, p - c[k][2], k + 1)
RAt(c, p) == LET f == RFind(c, p, 1) IN c[f[1]][1] + f[2]

RTake(c, p) ==
    IF p >= RLen(c) THEN c
    ELSE LET f == RFind(c, p, 1)
             k == SubSeq(c, 1, f[1] - 1)
         IN IF f[2] = 0 THEN k ELSE Append(k, <<c[f[1]][1], f[2]>>)
RDrop(c, p) ==
    IF p >= RLen(c) THEN <<>>
    ELSE LET f == RFind(c, p, 1)
         IN << <<c[f[1]][1] + f[2], c[f[1]][2] - f[2]>> >> \o SubSeq(c, f[1] + 1, Len(c))

RCat(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE LET x == a[Len(a)]
             y == b[1]
         IN IF x[1] + x[2] = y[1] THEN SubSeq(a, 1, Len(a) - 1) \o << <<x[1], x[2] + y[2]>> >> \o Tail(b)
            ELSE a \o b

RRun(v, n) == IF n = 0 THEN <<>> ELSE << <<v, n>> >>
RIns(c, p, r) == RCat(RCat(RTake(c, p), r), RDrop(c, p))
RDel(c, p, k) == RCat(RTake(c, p), RDrop(c, p + k))
RSub(c, p, q) == RTake(RDrop(c, p), q - p)

SortRuns(c) == SortSeq(c, LAMBDA x, y : x[1] < y[1])
RECURSIVE RJoin(_)
RJoin(c) == IF Len(c) <= 1 THEN c ELSE RCat(<<c[1]>>, RJoin(Tail(c)))
\* the values in increasing order, for a sequence of distinct values
RSort(c) == RJoin(SortRuns(c))
RDistinct(c) == LET s == SortRuns(c) IN \A k \in 1..(Len(s) - 1) : s[k][1] + s[k][2] <= s[k + 1][1]

\* without the values of a..b-1
RClip(r, a, b) ==   \* one run
    LET e == r[1] + r[2]
        lo == IF a < r[1] THEN r[1] ELSE IF a > e THEN e ELSE a
        hi == IF b < lo THEN lo ELSE IF b > e THEN e ELSE b
    IN RCat(RRun(r[1], lo - r[1]), RRun(hi, e - hi))
RECURSIVE RRemove(_, _, _)
RRemove(c, a, b) == IF c = <<>> THEN <<>> ELSE RCat(RClip(c[1], a, b), RRemove(Tail(c), a, b))

\* the first of every group of values with the same v \div k that stand together
RECURSIVE RHeads(_, _, _)
RHeads(r, k, last) ==   \* of one run; `last' is the group kept last
    IF r[2] = 0 THEN <<>>
    ELSE LET g == r[1] \div k
             m == (g + 1) * k - r[1]      \* how many of the run are in this group
             used == IF m > r[2] THEN r[2] ELSE m
         IN RCat(IF g = last THEN <<>> ELSE << <<r[1], 1>> >>, RHeads(<<r[1] + used, r[2] - used>>, k, g))
RECURSIVE RUniq(_, _, _)
RUniq(c, k, last) ==
    IF c = <<>> THEN <<>>
    ELSE RCat(RHeads(c[1], k, last), RUniq(Tail(c), k, (c[1][1] + c[1][2] - 1) \div k))
RUnique(c, k) == RUniq(c, k, -1000000)

\* stable order by v \div k
RECURSIVE RSplit(_, _)   \* one run, cut where the group changes
RSplit(r, k) ==
    LET m == (r[1] \div k + 1) * k - r[1]
    IN IF m >= r[2] THEN <<r>> ELSE << <<r[1], m>> >> \o RSplit(<<r[1] + m, r[2] - m>>, k)
RECURSIVE RPieces(_, _)
RPieces(c, k) == IF c = <<>> THEN <<>> ELSE RSplit(c[1], k) \o RPieces(Tail(c), k)
RSortBy(c, k) ==
    LET q == RPieces(c, k)
        t == [i \in 1..Len(q) |-> <<q[i][1] \div k, i>>]
        o == SortSeq(t, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
    IN RJoin([i \in 1..Len(q) |-> q[o[i][2]]])

\* -1, 0, 1: lexicographic order
RECURSIVE RCompare(_, _)
RCompare(a, b) ==
    IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
    ELSE IF b = <<>> THEN 1
    ELSE IF a[1][1] # b[1][1] THEN (IF a[1][1] < b[1][1] THEN -1 ELSE 1)
    ELSE LET n == IF a[1][2] < b[1][2] THEN a[1][2] ELSE b[1][2]
         IN RCompare(RDrop(a, n), RDrop(b, n))

\* the values inserted at p one after the other, each a copy of what is at i by then
RECURSIVE Repeat(_, _, _, _)
Repeat(c, p, i, k) ==
    IF k = 0 THEN <<>>
    ELSE LET v == RAt(c, i) IN RCat(Repeat(RIns(c, p, RRun(v, 1)), p, i, k - 1), RRun(v, 1))
=============================================================================
