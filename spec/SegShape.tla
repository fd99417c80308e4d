------------------------------ MODULE SegShape ------------------------------
(***************************************************************************)
(* The arrangement of a container: which elements share a segment and      *)
(* which segments share an index node, as a nested tuple.  A segment is    *)
(* its length; an index node is the tuple of its children; height h counts *)
(* levels.  Insertion and erasure of one element follow the container's    *)
(* algorithm (split at half, borrow from the left neighbour else the right *)
(* one, otherwise merge).  The module is explored exhaustively up to MaxN  *)
(* elements: its invariants are the balance properties, and every          *)
(* transition is printed, so that it can be replayed on the real container.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS S,      \* segment capacity
          B,      \* index node capacity
          MaxN,   \* bound on the number of elements
          Emit    \* print the transitions

VARIABLES h, t
vars == <<h, t>>

SMin == (S + 1) \div 2
BMin == (B + 1) \div 2

RECURSIVE Size(_, _)
RECURSIVE SumSizes(_, _, _)
SumSizes(hh, q, k) == IF k = 0 THEN 0 ELSE Size(hh, q[k]) + SumSizes(hh, q, k - 1)
Size(hh, x) == IF hh = 0 THEN 0 ELSE IF hh = 1 THEN x ELSE SumSizes(hh - 1, x, Len(x))

RECURSIVE Segs(_, _)
RECURSIVE CatSegs(_, _, _)
CatSegs(hh, q, k) == IF k = 0 THEN <<>> ELSE CatSegs(hh, q, k - 1) \o Segs(hh, q[k])
Segs(hh, x) == IF hh = 0 THEN <<>> ELSE IF hh = 1 THEN <<x>> ELSE CatSegs(hh - 1, x, Len(x))

N == Size(h, t)

\* Child that holds position p; the end position belongs to the last child.
RECURSIVE FindChild(_, _, _, _)
FindChild(hh, q, k, p) ==
    LET s == Size(hh, q[k]) IN
    IF p < s \/ k = Len(q) THEN <<k, p>> ELSE FindChild(hh, q, k + 1, p - s)

Replace(q, k, r) == SubSeq(q, 1, k - 1) \o r \o SubSeq(q, k + 1, Len(q))

\* Insertion: <<node>> or <<left, right>>, and the number of blocks obtained.
RECURSIVE Ins(_, _, _)
Ins(hh, x, p) ==
    IF hh = 1
    THEN IF x < S THEN [r |-> <<x + 1>>, al |-> 0]
         ELSE [r |-> << (S + 1) \div 2, (S + 1) - (S + 1) \div 2 >>, al |-> 1]
    ELSE LET f == FindChild(hh - 1, x, 1, p)
             i == Ins(hh - 1, x[f[1]], f[2])
             q == Replace(x, f[1], i.r)
             half == (B + 1) \div 2
         IN IF Len(q) <= B THEN [r |-> <<q>>, al |-> i.al]
            ELSE [r |-> << SubSeq(q, 1, half), SubSeq(q, half + 1, B + 1) >>, al |-> i.al + 1]

InsertTree(hh, x, p) ==
    IF hh = 0 THEN [h |-> 1, t |-> 1, al |-> 1]
    ELSE LET i == Ins(hh, x, p)
         IN IF Len(i.r) = 1 THEN [h |-> hh, t |-> i.r[1], al |-> i.al]
            ELSE [h |-> hh + 1, t |-> i.r, al |-> i.al + 1]

\* Erasure.  Weight of a child: length of a segment, fan-out of a node.
W(hh, x) == IF hh = 1 THEN x ELSE Len(x)
Min(hh) == IF hh = 1 THEN SMin ELSE BMin
Front(hh, x) == IF hh = 1 THEN 1 ELSE <<x[1]>>
Back(hh, x) == IF hh = 1 THEN 1 ELSE <<x[Len(x)]>>
DropF(hh, x) == IF hh = 1 THEN x - 1 ELSE Tail(x)
DropB(hh, x) == IF hh = 1 THEN x - 1 ELSE SubSeq(x, 1, Len(x) - 1)
Join(hh, x, y) == IF hh = 1 THEN x + y ELSE x \o y

\* q with child k one short: borrow or merge.
Fix(hh, q, k) ==
    IF W(hh, q[k]) >= Min(hh) THEN q
    ELSE IF k > 1
         THEN IF W(hh, q[k - 1]) > Min(hh)
              THEN [q EXCEPT ![k - 1] = DropB(hh, @), ![k] = Join(hh, Back(hh, q[k - 1]), @)]
              ELSE SubSeq(q, 1, k - 2) \o <<Join(hh, q[k - 1], q[k])>> \o SubSeq(q, k + 1, Len(q))
         ELSE IF W(hh, q[k + 1]) > Min(hh)
              THEN [q EXCEPT ![k + 1] = DropF(hh, @), ![k] = Join(hh, @, Front(hh, q[k + 1]))]
              ELSE <<Join(hh, q[1], q[2])>> \o SubSeq(q, 3, Len(q))

RECURSIVE Del(_, _, _)
Del(hh, x, p) ==
    IF hh = 1 THEN x - 1
    ELSE LET f == FindChild(hh - 1, x, 1, p)
             c == Del(hh - 1, x[f[1]], f[2])
         IN Fix(hh - 1, [x EXCEPT ![f[1]] = c], f[1])

EraseTree(hh, x, p) ==
    LET d == Del(hh, x, p)
    IN IF hh = 1 THEN IF d = 0 THEN [h |-> 0, t |-> 0] ELSE [h |-> 1, t |-> d]
       ELSE IF Len(d) = 1 THEN [h |-> hh - 1, t |-> d[1]] ELSE [h |-> hh, t |-> d]

-----------------------------------------------------------------------------
Edge(name, p, h2, t2, al) ==
    IF Emit
    THEN PrintT("E;" \o ToString(h) \o ToString(t) \o ";" \o name \o ";" \o ToString(p) \o ";"
                \o ToString(h2) \o ToString(t2) \o ";" \o ToString(al) \o ";" \o ToString(N))
    ELSE TRUE

Insert(p) ==
    LET r == InsertTree(h, t, p) IN
    /\ N < MaxN
    /\ h' = r.h /\ t' = r.t
    /\ Edge("ins", p, r.h, r.t, r.al)

Erase(p) ==
    LET r == EraseTree(h, t, p) IN
    /\ h' = r.h /\ t' = r.t
    /\ Edge("er", p, r.h, r.t, 0)

Init == h = 0 /\ t = 0
Next == \/ \E p \in 0..N : Insert(p)
        \/ \E p \in 0..(N - 1) : Erase(p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The balanced counted tree.
RECURSIVE Balanced(_, _, _)
Balanced(hh, x, root) ==
    IF hh = 1 THEN x <= S /\ x >= (IF root THEN 1 ELSE SMin)
    ELSE /\ Len(x) <= B /\ Len(x) >= (IF root THEN 2 ELSE BMin)
         /\ \A k \in 1..Len(x) : Balanced(hh - 1, x[k], FALSE)
TreeOK == IF h = 0 THEN t = 0 ELSE Balanced(h, t, TRUE)

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
HeightBound == h >= 2 => N >= 2 * Pow(BMin, h - 2) * SMin

SizeOK == [][N' = N + 1 \/ N' = N - 1]_vars
AllocBound == \A p \in 0..N : InsertTree(h, t, p).al <= h + 1
=============================================================================
