------------------------------ MODULE SegHeap -------------------------------
(***************************************************************************)
(* The container's algorithm over a heap of blocks: segments hold element  *)
(* slots, index nodes hold counts, children and a link to their parent.    *)
(* Every step a call takes between two points where something can fail is  *)
(* one action (allocate a block, fail, unwind, split a segment, split an   *)
(* index node, climb, borrow, merge, adjust counts), so the intermediate   *)
(* states are explored as well.  A slot is RAW memory, holds a value or is *)
(* MOVED from; constructing on a live slot, assigning to or reading RAW    *)
(* memory, and releasing a block that still holds elements set `bad`.      *)
(*                                                                         *)
(* Checked by TLC:                                                         *)
(*  - RetOK: a finished call left exactly the ideal sequence, a correct    *)
(*    counted tree, no unowned block, and the right iterator; a failed one *)
(*    left the heap exactly as it was;                                     *)
(*  - Iterators: all iterator movement agrees with integer arithmetic;     *)
(*  - Refines: seen from outside, calls are transitions of SegShape, whose *)
(*    graph drives the conformance tests of the real container.            *)
(* Values and block names are renumbered between calls, so that equal      *)
(* arrangements are one state.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS S, B, MaxN, Fail   \* Fail: allocations may fail

VARIABLES H,      \* [mem, root, size, ht, bad]
          pc, r,  \* step and registers of the call under way
          ideal,  \* what the call must leave
          sh      \* arrangement at the last moment between calls
vars == <<H, pc, r, ideal, sh>>

NIL == 0
RAW == -2
MOVED == -1
JUNK == -9
SMin == (S + 1) \div 2
BMin == (B + 1) \div 2
FRESH == 1000       \* the value being inserted

EmptyHeap == [mem |-> <<>>, root |-> NIL, size |-> 0, ht |-> 0, bad |-> FALSE]

\* ------------------------------------------------------------------ memory
Ids(h) == DOMAIN h.mem
NewId(h) == CHOOSE i \in 1..(Cardinality(Ids(h)) + 1) : i \notin Ids(h)
Bad(h) == [h EXCEPT !.bad = TRUE]
Put(h, i, b) == [h EXCEPT !.mem = [x \in Ids(h) \cup {i} |-> IF x = i THEN b ELSE h.mem[x]]]
NewSeg(h) == Put(h, NewId(h), [t |-> "s", e |-> [i \in 0..(S - 1) |-> RAW]])
NewNode(h, link) == Put(h, NewId(h), [t |-> "n", par |-> link, pix |-> JUNK, len |-> JUNK,
                                      sz |-> [i \in 0..(B - 1) |-> JUNK], ch |-> [i \in 0..(B - 1) |-> JUNK]])
Free(h, i) ==
    IF i \notin Ids(h) THEN Bad(h)
    ELSE LET g == [h EXCEPT !.mem = [x \in Ids(h) \ {i} |-> h.mem[x]]]
         IN IF h.mem[i].t = "s" /\ \E k \in 0..(S - 1) : h.mem[i].e[k] # RAW THEN Bad(g) ELSE g

\* ---------------------------------------------------------------- elements
Live(h, s, i) == s \in Ids(h) /\ h.mem[s].t = "s" /\ i \in 0..(S - 1) /\ h.mem[s].e[i] # RAW
Room(h, s, i) == s \in Ids(h) /\ h.mem[s].t = "s" /\ i \in 0..(S - 1) /\ h.mem[s].e[i] = RAW
SetE(h, s, i, v) == [h EXCEPT !.mem[s].e[i] = v]
Construct(h, s, i, v) == IF Room(h, s, i) THEN SetE(h, s, i, v) ELSE Bad(h)
AssignE(h, s, i, v) == IF Live(h, s, i) THEN SetE(h, s, i, v) ELSE Bad(h)
Destroy(h, s, i) == IF Live(h, s, i) THEN SetE(h, s, i, RAW) ELSE Bad(h)
\* take the value out of a slot
Src(h, s, i) == IF Live(h, s, i) /\ h.mem[s].e[i] # MOVED THEN h.mem[s].e[i] ELSE JUNK
TakeOK(h, s, i) == IF Src(h, s, i) = JUNK THEN Bad(h) ELSE SetE(h, s, i, MOVED)
MoveCons(h, s, i, d, j) == Construct(TakeOK(h, s, i), d, j, Src(h, s, i))
MoveAsg(h, s, i, d, j) == AssignE(TakeOK(h, s, i), d, j, Src(h, s, i))
RECURSIVE ConsRange(_, _, _, _, _, _)
ConsRange(h, s, i, d, j, n) ==
    IF n = 0 THEN h ELSE ConsRange(Destroy(MoveCons(h, s, i, d, j), s, i), s, i + 1, d, j + 1, n - 1)
RECURSIVE ShiftUp(_, _, _, _)     \* [index, length) one up, from the back
ShiftUp(h, s, length, index) ==
    IF length <= index THEN h ELSE ShiftUp(MoveAsg(h, s, length - 1, s, length), s, length - 1, index)
RECURSIVE ShiftDown(_, _, _, _)   \* (index, length] one down, from the front
ShiftDown(h, s, length, index) ==
    IF index >= length THEN h ELSE ShiftDown(MoveAsg(h, s, index + 1, s, index), s, length, index + 1)

\* ------------------------------------------------------------- index nodes
Nd(h, n) == h.mem[n]
Entry(h, n, i, z, c, branch) ==
    IF n \notin Ids(h) \/ i \notin 0..(B - 1) \/ z = JUNK \/ c \notin Ids(h) THEN Bad(h)
    ELSE LET g == [h EXCEPT !.mem[n].sz[i] = z, !.mem[n].ch[i] = c]
         IN IF branch THEN [g EXCEPT !.mem[c].par = n, !.mem[c].pix = i] ELSE g
CopyEntry(h, s, i, d, j, branch) == Entry(h, d, j, Nd(h, s).sz[i], Nd(h, s).ch[i], branch)
RECURSIVE EntryRange(_, _, _, _, _, _, _)
EntryRange(h, s, i, d, j, n, branch) ==
    IF n = 0 THEN h ELSE EntryRange(CopyEntry(h, s, i, d, j, branch), s, i + 1, d, j + 1, n - 1, branch)
RECURSIVE EntriesUp(_, _, _, _, _)
EntriesUp(h, n, length, index, branch) ==
    IF length <= index THEN h ELSE EntriesUp(CopyEntry(h, n, length - 1, n, length, branch), n, length - 1, index, branch)
RECURSIVE EntriesDown(_, _, _, _, _)
EntriesDown(h, n, length, index, branch) ==
    IF index >= length THEN h ELSE EntriesDown(CopyEntry(h, n, index + 1, n, index, branch), n, length, index + 1, branch)
RECURSIVE SumSz(_, _, _, _)
SumSz(h, n, i, c) == IF c = 0 THEN 0 ELSE Nd(h, n).sz[i] + SumSz(h, n, i + 1, c - 1)
\* entries from len on are forgotten
SetLen(h, n, len) ==
    [h EXCEPT !.mem[n].len = len,
              !.mem[n].sz = [i \in 0..(B - 1) |-> IF i < len THEN @[i] ELSE JUNK],
              !.mem[n].ch = [i \in 0..(B - 1) |-> IF i < len THEN @[i] ELSE JUNK]]
AddSz(h, n, i, d) == [h EXCEPT !.mem[n].sz[i] = @ + d]

\* -------------------------------------------------------------- iterators
It(s, i, l, n, k, p) == [s |-> s, i |-> i, l |-> l, n |-> n, k |-> k, p |-> p]
RECURSIVE FindIn(_, _, _, _, _)
FindIn(h, n, ht, p, pos) ==
    LET k == CHOOSE k \in 0..(Nd(h, n).len - 1) :
                 /\ p < SumSz(h, n, 0, k + 1) /\ p >= SumSz(h, n, 0, k)
        q == p - SumSz(h, n, 0, k)
    IN IF ht = 2 THEN It(Nd(h, n).ch[k], q, Nd(h, n).sz[k], n, k, pos)
       ELSE FindIn(h, Nd(h, n).ch[k], ht - 1, q, pos)
RECURSIVE EdgeIn(_, _, _, _, _)     \* first (0), last (1), end (2)
EdgeIn(h, n, ht, which, pos) ==
    LET k == IF which = 0 THEN 0 ELSE Nd(h, n).len - 1
        z == Nd(h, n).sz[k]
    IN IF ht = 2 THEN It(Nd(h, n).ch[k], IF which = 0 THEN 0 ELSE IF which = 1 THEN z - 1 ELSE z, z, n, k, pos)
       ELSE EdgeIn(h, Nd(h, n).ch[k], ht - 1, which, pos)
FindPos(h, p) == IF h.ht < 2 THEN It(h.root, p, h.size, NIL, 0, p) ELSE FindIn(h, h.root, h.ht, p, p)
FindFirst(h) == IF h.ht < 2 THEN It(h.root, 0, h.size, NIL, 0, 0) ELSE EdgeIn(h, h.root, h.ht, 0, 0)
FindLast(h) == IF h.ht < 2 THEN It(h.root, h.size - 1, h.size, NIL, 0, h.size - 1) ELSE EdgeIn(h, h.root, h.ht, 1, h.size - 1)
FindEnd(h) == IF h.ht < 2 THEN It(h.root, h.size, h.size, NIL, 0, h.size) ELSE EdgeIn(h, h.root, h.ht, 2, h.size)
Nth(h, p) == IF p >= h.size THEN FindEnd(h) ELSE FindPos(h, p)

AtEnd(it) == [it EXCEPT !.i = it.l]
RECURSIVE NextBranch(_, _, _, _, _)
NextBranch(h, it, n, i, ht) ==
    IF n = NIL THEN AtEnd(it)
    ELSE IF i + 1 # Nd(h, n).len THEN EdgeIn(h, Nd(h, n).ch[i + 1], ht, 0, it.p)
    ELSE NextBranch(h, it, Nd(h, n).par, Nd(h, n).pix, ht + 1)
NextLeaf(h, it) ==
    IF it.n = NIL THEN AtEnd(it)
    ELSE LET n == Nd(h, it.n) IN
         IF it.k + 1 # n.len THEN It(n.ch[it.k + 1], 0, n.sz[it.k + 1], it.n, it.k + 1, it.p)
         ELSE NextBranch(h, it, n.par, n.pix, 2)
Next1(h, it) ==
    LET j == [it EXCEPT !.p = @ + 1] IN IF j.i + 1 # j.l THEN [j EXCEPT !.i = @ + 1] ELSE NextLeaf(h, j)
RECURSIVE PrevBranch(_, _, _, _, _)
PrevBranch(h, it, n, i, ht) ==
    IF i # 0 THEN EdgeIn(h, Nd(h, n).ch[i - 1], ht, 1, it.p) ELSE PrevBranch(h, it, Nd(h, n).par, Nd(h, n).pix, ht + 1)
PrevLeaf(h, it) ==
    LET n == Nd(h, it.n) IN
    IF it.k # 0 THEN It(n.ch[it.k - 1], n.sz[it.k - 1] - 1, n.sz[it.k - 1], it.n, it.k - 1, it.p)
    ELSE PrevBranch(h, it, n.par, n.pix, 2)
Prev1(h, it) ==
    LET j == [it EXCEPT !.p = @ - 1] IN IF j.i # 0 THEN [j EXCEPT !.i = @ - 1] ELSE PrevLeaf(h, j)

\* forward by a count: rest of a node from child i on, at level ht (1: children are segments)
RECURSIVE FwdNode(_, _, _, _, _, _, _)
FwdNode(h, it, base, n, i, ht, c) ==
    IF n = NIL THEN EdgeIn(h, base, ht, 2, it.p)
    ELSE IF i = Nd(h, n).len THEN FwdNode(h, it, n, Nd(h, n).par, Nd(h, n).pix + 1, ht + 1, c)
    ELSE LET z == Nd(h, n).sz[i] IN
         IF z > c THEN IF ht = 1 THEN It(Nd(h, n).ch[i], c, z, n, i, it.p) ELSE FindIn(h, Nd(h, n).ch[i], ht, c, it.p)
         ELSE FwdNode(h, it, base, n, i + 1, ht, c - z)
FwdLeaf(h, it, c) == IF it.n = NIL THEN AtEnd(it) ELSE FwdNode(h, it, NIL, it.n, it.k + 1, 1, c)
Fwd(h, it, c) ==
    LET j == [it EXCEPT !.p = @ + c] IN IF j.i + c < j.l THEN [j EXCEPT !.i = @ + c] ELSE FwdLeaf(h, j, j.i + c - j.l)
RECURSIVE BackNode(_, _, _, _, _, _)
BackNode(h, it, n, i, ht, c) ==
    IF i = 0 THEN BackNode(h, it, Nd(h, n).par, Nd(h, n).pix, ht + 1, c)
    ELSE LET z == Nd(h, n).sz[i - 1] IN
         IF z >= c THEN IF ht = 1 THEN It(Nd(h, n).ch[i - 1], z - c, z, n, i - 1, it.p) ELSE FindIn(h, Nd(h, n).ch[i - 1], ht, z - c, it.p)
         ELSE BackNode(h, it, n, i - 1, ht, c - z)
Back(h, it, c) ==
    LET j == [it EXCEPT !.p = @ - c] IN IF j.i >= c THEN [j EXCEPT !.i = @ - c] ELSE BackNode(h, j, j.n, j.k, 1, c - j.i)
AfterSeg(h, it) == NextLeaf(h, [it EXCEPT !.p = @ + it.l - it.i])
AfterSegN(h, it, c) == FwdLeaf(h, [it EXCEPT !.p = @ + it.l - it.i + c], c)
BeforeSeg(h, it) == PrevLeaf(h, [it EXCEPT !.p = @ - (it.i + 1)])
BeforeSegN(h, it, c) == BackNode(h, [it EXCEPT !.p = @ - (it.i + 1 + c)], it.n, it.k, 1, c + 1)

\* ------------------------------------------------------------ abstraction
RECURSIVE ContentsOf(_, _, _, _)
RECURSIVE CatContents(_, _, _, _)
CatContents(h, n, ht, k) ==
    IF k = 0 THEN <<>> ELSE CatContents(h, n, ht, k - 1) \o ContentsOf(h, Nd(h, n).ch[k - 1], ht - 1, Nd(h, n).sz[k - 1])
ContentsOf(h, x, ht, z) ==
    IF ht = 0 THEN <<>>
    ELSE IF ht = 1 THEN [i \in 1..z |-> Nd(h, x).e[i - 1]]
    ELSE CatContents(h, x, ht, Nd(h, x).len)
Contents(h) == ContentsOf(h, h.root, h.ht, h.size)
RECURSIVE ShapeOf(_, _, _, _)
ShapeOf(h, x, ht, z) ==
    IF ht = 0 THEN 0 ELSE IF ht = 1 THEN z ELSE [k \in 1..Nd(h, x).len |-> ShapeOf(h, Nd(h, x).ch[k - 1], ht - 1, Nd(h, x).sz[k - 1])]
Shape(h) == <<h.ht, ShapeOf(h, h.root, h.ht, h.size)>>

\* counts, fill, links, slots
RECURSIVE TreeOK(_, _, _, _, _, _, _)
TreeOK(h, x, ht, z, par, pix, root) ==
    /\ x \in Ids(h)
    /\ IF ht = 1
       THEN /\ Nd(h, x).t = "s"
            /\ z <= S /\ z >= (IF root THEN 1 ELSE SMin)
            /\ \A i \in 0..(S - 1) : (Nd(h, x).e[i] # RAW) <=> (i < z)
            /\ \A i \in 0..(z - 1) : Nd(h, x).e[i] # MOVED
       ELSE /\ Nd(h, x).t = "n"
            /\ Nd(h, x).par = par /\ (par # NIL => Nd(h, x).pix = pix)
            /\ Nd(h, x).len <= B /\ Nd(h, x).len >= (IF root THEN 2 ELSE BMin)
            /\ z = SumSz(h, x, 0, Nd(h, x).len)
            /\ \A k \in 0..(Nd(h, x).len - 1) : TreeOK(h, Nd(h, x).ch[k], ht - 1, Nd(h, x).sz[k], x, k, FALSE)
RECURSIVE Reach(_, _, _)
Reach(h, x, ht) ==
    IF ht = 0 THEN {} ELSE IF ht = 1 THEN {x}
    ELSE {x} \cup UNION {Reach(h, Nd(h, x).ch[k], ht - 1) : k \in 0..(Nd(h, x).len - 1)}
HeapOK(h) ==
    /\ ~h.bad
    /\ IF h.ht = 0 THEN h.size = 0 /\ h.root = NIL /\ Ids(h) = {}
       ELSE TreeOK(h, h.root, h.ht, h.size, NIL, 0, TRUE) /\ Ids(h) = Reach(h, h.root, h.ht)

\* renumbering: blocks in depth-first order, values by position
RECURSIVE Walk(_, _, _)
RECURSIVE WalkKids(_, _, _, _)
WalkKids(h, x, ht, k) == IF k = 0 THEN <<>> ELSE WalkKids(h, x, ht, k - 1) \o Walk(h, Nd(h, x).ch[k - 1], ht - 1)
Walk(h, x, ht) == IF ht = 0 THEN <<>> ELSE IF ht = 1 THEN <<x>> ELSE <<x>> \o WalkKids(h, x, ht, Nd(h, x).len)
Canon(h) ==
    LET w == Walk(h, h.root, h.ht)
        c == Contents(h)
        nu == [x \in Ids(h) |-> CHOOSE i \in 1..Len(w) : w[i] = x]
        id(x) == IF x \in Ids(h) THEN nu[x] ELSE x
        va == [v \in {c[i] : i \in 1..Len(c)} |-> CHOOSE i \in 1..Len(c) : c[i] = v]
        ren(b) == IF b.t = "s" THEN [b EXCEPT !.e = [i \in 0..(S - 1) |-> IF b.e[i] \in DOMAIN va THEN va[b.e[i]] ELSE b.e[i]]]
                  ELSE [b EXCEPT !.par = id(b.par), !.pix = IF b.par = NIL THEN 0 ELSE b.pix, !.ch = [i \in 0..(B - 1) |-> id(b.ch[i])]]
    IN [h EXCEPT !.mem = [i \in 1..Len(w) |-> ren(h.mem[w[i]])], !.root = id(h.root)]

\* ------------------------------------------------------------------ calls
InsertSeq(q, p, x) == SubSeq(q, 1, p) \o x \o SubSeq(q, p + 1, Len(q))
EraseAt(q, p) == SubSeq(q, 1, p) \o SubSeq(q, p + 2, Len(q))
Idle == [op |-> "none"]
Init == H = EmptyHeap /\ pc = "rest" /\ r = Idle /\ ideal = <<>> /\ sh = <<0, 0>>

StartInsert(p) ==
    /\ pc = "rest" /\ H.size < MaxN
    /\ r' = [op |-> "ins", p |-> p, it |-> Nth(H, p), old |-> H, seg |-> NIL, chain |-> <<>>, at |-> NIL, ix |-> 0, cn |-> NIL, cz |-> 0, ok |-> TRUE, w |-> 0]
    /\ ideal' = InsertSeq(Contents(H), p, <<FRESH>>)
    /\ pc' = "iseg" /\ UNCHANGED <<H, sh>>

StartErase(p) ==
    /\ pc = "rest" /\ p < H.size
    /\ r' = [op |-> "er", p |-> p, it |-> Nth(H, p), old |-> H, seg |-> NIL, chain |-> <<>>, at |-> NIL, ix |-> 0, cn |-> NIL, cz |-> 0, ok |-> TRUE, w |-> 0]
    /\ ideal' = EraseAt(Contents(H), p)
    /\ pc' = "eseg" /\ UNCHANGED <<H, sh>>

Go(h, label, reg) == H' = h /\ pc' = label /\ r' = [reg EXCEPT !.w = @ + 1] /\ UNCHANGED <<ideal, sh>>

\* add d to the counts from entry ix of node at upwards, one node per step
Update ==
    /\ pc \in {"inc", "dec"}
    /\ LET d == IF pc = "inc" THEN 1 ELSE -1 IN
       IF r.at = NIL THEN Go([H EXCEPT !.size = @ + d], "ret", r)
       ELSE Go(AddSz(H, r.at, r.ix, d), pc, [r EXCEPT !.at = Nd(H, r.at).par, !.ix = Nd(H, r.at).pix])

\* ---- insertion
ISeg ==
    /\ pc = "iseg"
    /\ LET it == r.it IN
       IF it.i # it.l /\ it.l # S
       THEN Go(AssignE(ShiftUp(MoveCons(H, it.s, it.l - 1, it.s, it.l), it.s, it.l - 1, it.i), it.s, it.i, FRESH),
               "inc", [r EXCEPT !.it.l = @ + 1, !.at = it.n, !.ix = it.k])
       ELSE IF it.s # NIL /\ it.l # S
       THEN Go(Construct(H, it.s, it.i, FRESH), "inc", [r EXCEPT !.it.l = @ + 1, !.at = it.n, !.ix = it.k])
       ELSE Go(H, "aseg", r)

ASeg ==
    /\ pc = "aseg"
    /\ \/ /\ Fail /\ Go(H, "ret", [r EXCEPT !.ok = FALSE])
       \/ LET g == NewSeg(H)
              i == NewId(H)
          IN IF r.it.s = NIL
             THEN Go([Construct(g, i, 0, FRESH) EXCEPT !.root = i, !.size = 1, !.ht = 1], "ret", [r EXCEPT !.it.s = i, !.it.l = 1])
             ELSE Go(g, "anode", [r EXCEPT !.seg = i, !.at = r.it.n])

\* one index node per full node on the path, and one more for a new root
ANode ==
    /\ pc = "anode"
    /\ IF r.at # NIL /\ Nd(H, r.at).len # B THEN Go(H, "isplit", r)
       ELSE \/ /\ Fail /\ Go(H, "unwind", r)
            \/ LET g == NewNode(H, IF r.chain = <<>> THEN NIL ELSE Head(r.chain))
                   q == <<NewId(H)>> \o r.chain
               IN IF r.at = NIL THEN Go(g, "isplit", [r EXCEPT !.chain = q])
                  ELSE Go(g, "anode", [r EXCEPT !.chain = q, !.at = Nd(H, r.at).par])

Unwind ==
    /\ pc = "unwind"
    /\ IF r.seg # NIL THEN Go(Free(H, r.seg), "unwind", [r EXCEPT !.seg = NIL])
       ELSE IF r.chain # <<>> THEN Go(Free(H, Head(r.chain)), "unwind", [r EXCEPT !.chain = Tail(@)])
       ELSE Go(H, "ret", [r EXCEPT !.ok = FALSE])

SPtr == (S + 1) \div 2
SAll == (S + 1) - SPtr
ISplit ==
    /\ pc = "isplit"
    /\ LET it == r.it
           q == r.seg
           s == it.s
       IN IF it.i < SPtr
          THEN LET g1 == MoveCons(H, s, SPtr - 1, q, 0)
                   g2 == ConsRange(g1, s, SPtr, q, 1, SAll - 1)
                   g3 == AssignE(ShiftUp(g2, s, SPtr - 1, it.i), s, it.i, FRESH)
               IN Go(g3, "ileaf", [r EXCEPT !.it.l = SPtr, !.at = it.n, !.ix = it.k + 1, !.cn = q, !.cz = SAll])
          ELSE LET j == it.i - SPtr
                   g1 == ConsRange(H, s, SPtr, q, 0, j)
                   g2 == ConsRange(g1, s, it.i, q, j + 1, S - it.i)
                   g3 == Construct(g2, q, j, FRESH)
               IN Go(g3, "ileaf", [r EXCEPT !.it = [it EXCEPT !.s = q, !.i = j, !.l = SAll, !.k = @ + 1],
                                            !.at = it.n, !.ix = it.k + 1, !.cn = q, !.cz = SAll])

BPtr == (B + 1) \div 2
BAll == (B + 1) - BPtr
\* a new child behind entry ix - 1 of node at; base is the old child when there is no node
NewRoot(base, branch) ==
    LET a == Head(r.chain)
        g1 == [H EXCEPT !.mem[a].par = NIL, !.mem[a].pix = 0, !.mem[a].len = 2]
        g2 == Entry(g1, a, 0, H.size - r.cz + 1, base, branch)
        g3 == Entry(g2, a, 1, r.cz, r.cn, branch)
    IN [g3 EXCEPT !.root = a, !.ht = IF branch THEN @ + 1 ELSE 2, !.size = @ + 1]
InsertEntry(branch) ==
    LET n == r.at
        len == Nd(H, n).len
        h0 == AddSz(H, n, r.ix - 1, -(r.cz - 1))
    IN IF len # B
       THEN LET g1 == IF r.ix # len THEN EntriesUp(CopyEntry(h0, n, len - 1, n, len, branch), n, len - 1, r.ix, branch) ELSE h0
                g2 == Entry(g1, n, r.ix, r.cz, r.cn, branch)
            IN Go([g2 EXCEPT !.mem[n].len = len + 1], "inc", [r EXCEPT !.at = Nd(H, n).par, !.ix = Nd(H, n).pix])
       ELSE LET a == Head(r.chain)
                j == r.ix - BPtr
                lo == r.ix < BPtr
                g1 == IF lo THEN EntryRange(CopyEntry(h0, n, BPtr - 1, a, 0, branch), n, BPtr, a, 1, BAll - 1, branch)
                      ELSE EntryRange(EntryRange(h0, n, BPtr, a, 0, j, branch), n, r.ix, a, j + 1, len - r.ix, branch)
                g2 == IF lo THEN Entry(EntriesUp(g1, n, BPtr - 1, r.ix, branch), n, r.ix, r.cz, r.cn, branch)
                      ELSE Entry(g1, a, j, r.cz, r.cn, branch)
                g3 == SetLen([g2 EXCEPT !.mem[a].len = BAll], n, BPtr)
                it == IF ~branch /\ r.it.k >= BPtr THEN [r.it EXCEPT !.n = a, !.k = @ - BPtr] ELSE r.it
            IN Go(g3, "ibranch", [r EXCEPT !.it = it, !.seg = n, !.at = Nd(H, n).par, !.ix = Nd(H, n).pix + 1,
                                           !.cn = a, !.cz = SumSz(g3, a, 0, BAll), !.chain = Tail(@)])
ILeaf ==
    /\ pc = "ileaf"
    /\ IF r.at = NIL
       THEN Go(NewRoot(r.old.root, FALSE), "ret", [r EXCEPT !.it.n = Head(r.chain), !.chain = <<>>])
       ELSE InsertEntry(FALSE)
IBranch ==
    /\ pc = "ibranch"
    /\ IF r.at = NIL THEN Go(NewRoot(r.seg, TRUE), "ret", [r EXCEPT !.chain = <<>>]) ELSE InsertEntry(TRUE)

\* ---- removal
ESeg ==
    /\ pc = "eseg"
    /\ LET it == r.it
           s == it.s
           n == it.n
           len == it.l - 1
       IN IF it.l = 1 /\ (SMin # 1 \/ n = NIL)
          THEN Go([Free(Destroy(H, s, 0), s) EXCEPT !.root = NIL, !.size = 0, !.ht = 0], "ret",
                  [r EXCEPT !.it = It(NIL, 0, 0, NIL, 0, it.p)])
          ELSE IF it.l # SMin \/ n = NIL
          THEN Go(Destroy(ShiftDown(H, s, len, it.i), s, len), "dec", [r EXCEPT !.it.l = len, !.at = n, !.ix = it.k])
          ELSE IF it.k # 0
          THEN LET q == Nd(H, n).ch[it.k - 1]
                   ql == Nd(H, n).sz[it.k - 1]
               IN IF ql # SMin
                  THEN LET g == Destroy(MoveAsg(ShiftUp(H, s, it.i, 0), q, ql - 1, s, 0), q, ql - 1)
                       IN Go([g EXCEPT !.mem[n].sz[it.k - 1] = ql - 1], "dec",
                             [r EXCEPT !.it.i = @ + 1, !.at = Nd(H, n).par, !.ix = Nd(H, n).pix])
                  ELSE LET g1 == ConsRange(H, s, 0, q, ql, it.i)
                           g2 == ConsRange(g1, s, it.i + 1, q, ql + it.i, len - it.i)
                           g3 == Free(Destroy(g2, s, it.i), s)
                       IN Go([g3 EXCEPT !.mem[n].sz[it.k - 1] = 2 * SMin - 1], "eleaf",
                             [r EXCEPT !.it = [it EXCEPT !.s = q, !.l = 2 * SMin - 1, !.i = @ + SMin, !.k = @ - 1], !.at = n, !.ix = it.k])
          ELSE LET q == Nd(H, n).ch[1]
                   ql == Nd(H, n).sz[1]
                   g1 == MoveAsg(ShiftDown(H, s, len, it.i), q, 0, s, len)
               IN IF ql # SMin
                  THEN Go([Destroy(ShiftDown(g1, q, ql - 1, 0), q, ql - 1) EXCEPT !.mem[n].sz[1] = ql - 1], "dec",
                          [r EXCEPT !.at = Nd(H, n).par, !.ix = Nd(H, n).pix])
                  ELSE LET g2 == ConsRange(Destroy(g1, q, 0), q, 1, s, len + 1, ql - 1)
                       IN Go([Free(g2, q) EXCEPT !.mem[n].sz[0] = 2 * SMin - 1], "eleaf",
                             [r EXCEPT !.it.l = 2 * SMin - 1, !.at = n, !.ix = 1])

\* entry ix of node at disappears
EraseEntry(branch) ==
    LET n == r.at
        nd == Nd(H, n)
        len == nd.len - 1
        up == nd.par
        k == nd.pix
        dec(g, i, reg) == Go(g, "dec", [reg EXCEPT !.at = Nd(H, up).par, !.ix = Nd(H, up).pix])
        leaf(m, i) == IF branch THEN r.it ELSE [r.it EXCEPT !.n = m, !.k = i]
    IN IF nd.len = 2 /\ (BMin # 2 \/ up = NIL)
       THEN LET o == nd.ch[1 - r.ix]
                g == [Free(H, n) EXCEPT !.root = o, !.size = @ - 1, !.ht = IF branch THEN @ - 1 ELSE 1]
            IN IF branch THEN Go([g EXCEPT !.mem[o].par = NIL, !.mem[o].pix = 0], "ret", r)
               ELSE Go(g, "ret", [r EXCEPT !.it.n = NIL, !.it.k = 0])
       ELSE IF nd.len # BMin \/ up = NIL
       THEN Go(SetLen(EntriesDown(H, n, len, r.ix, branch), n, len), "dec", [r EXCEPT !.at = up, !.ix = k])
       ELSE IF k # 0
       THEN LET q == Nd(H, up).ch[k - 1]
                ql == Nd(H, q).len
            IN IF ql # BMin
               THEN LET g1 == CopyEntry(EntriesUp(H, n, r.ix, 0, branch), q, ql - 1, n, 0, branch)
                        z == Nd(H, q).sz[ql - 1]
                        g2 == AddSz(AddSz(SetLen(g1, q, ql - 1), up, k - 1, -z), up, k, z - 1)
                    IN dec(g2, 0, IF branch THEN r ELSE [r EXCEPT !.it.k = @ + 1])
               ELSE LET g1 == EntryRange(H, n, 0, q, ql, r.ix, branch)
                        g2 == EntryRange(g1, n, r.ix + 1, q, ql + r.ix, len - r.ix, branch)
                        z == SumSz(H, n, 0, r.ix) + SumSz(H, n, r.ix + 1, len - r.ix)
                        g3 == AddSz([Free(g2, n) EXCEPT !.mem[q].len = ql + len], up, k - 1, z)
                    IN Go(g3, "ebranch", [r EXCEPT !.it = IF branch THEN @ ELSE [@ EXCEPT !.n = q, !.k = @ + ql], !.at = up, !.ix = k])
       ELSE LET q == Nd(H, up).ch[1]
                ql == Nd(H, q).len
                z1 == Nd(H, q).sz[0]
                g1 == CopyEntry(EntriesDown(H, n, len, r.ix, branch), q, 0, n, len, branch)
            IN IF ql # BMin
               THEN LET g2 == SetLen(EntriesDown(g1, q, ql - 1, 0, branch), q, ql - 1)
                    IN dec(AddSz(AddSz(g2, up, 1, -z1), up, 0, z1 - 1), 0, r)
               ELSE LET g2 == EntryRange(g1, q, 1, n, len + 1, ql - 1, branch)
                        z == SumSz(H, q, 0, ql)
                        g3 == AddSz([Free(g2, q) EXCEPT !.mem[n].len = len + ql], up, 0, z - 1)
                    IN Go(g3, "ebranch", [r EXCEPT !.at = up, !.ix = 1])
ELeaf == pc = "eleaf" /\ EraseEntry(FALSE)
EBranch == pc = "ebranch" /\ EraseEntry(TRUE)

\* ---- return: renumber, forget the call
Return ==
    /\ pc = "ret"
    /\ H' = Canon(H) /\ pc' = "rest" /\ r' = Idle /\ ideal' = <<>> /\ sh' = Shape(H)

Next == \/ \E p \in 0..H.size : StartInsert(p) \/ StartErase(p)
        \/ Update \/ ISeg \/ ASeg \/ ANode \/ Unwind \/ ISplit \/ ILeaf \/ IBranch
        \/ ESeg \/ ELeaf \/ EBranch \/ Return
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
Returned == IF r.op = "er" /\ r.it.i = r.it.l THEN NextLeaf(H, r.it) ELSE r.it
RetOK ==
    pc = "ret" =>
        IF r.ok THEN /\ HeapOK(H) /\ Contents(H) = ideal
                     /\ H.size = r.old.size + (IF r.op = "ins" THEN 1 ELSE -1)
                     /\ Returned = Nth(H, r.p)
        ELSE H = r.old /\ r.op = "ins"
NeverBad == ~H.bad
\* the number of blocks a single insertion obtains
AllocBound == pc \in {"isplit", "ret"} => Cardinality(Ids(H)) <= Cardinality(Ids(r.old)) + r.old.ht + 1
\* memory held in the middle of a call is owned by the container or by the call
NoOrphans == pc # "rest" => Cardinality(Ids(H)) <= Cardinality(Ids(r.old)) + 1 + r.old.ht

Iterators ==
    pc = "rest" =>
        LET n == H.size IN
        /\ n > 0 => FindFirst(H) = Nth(H, 0) /\ FindLast(H) = Nth(H, n - 1)
        /\ \A p \in 0..n :
             LET it == Nth(H, p) IN
             /\ p < n => /\ Nd(H, it.s).e[it.i] = p + 1
                         /\ Next1(H, it) = Nth(H, p + 1)
                         /\ AfterSeg(H, it) = Nth(H, p + it.l - it.i)
                         /\ \A c \in 0..(n - (p + it.l - it.i)) : AfterSegN(H, it, c) = Nth(H, p + it.l - it.i + c)
             /\ p > 0 => Prev1(H, it) = Nth(H, p - 1)
             /\ \A q \in p..n : Fwd(H, it, q - p) = Nth(H, q)
             /\ \A q \in 0..p : Back(H, it, p - q) = Nth(H, q)
             /\ p - it.i > 0 => /\ BeforeSeg(H, it) = Nth(H, p - it.i - 1)
                                /\ \A c \in 0..(p - it.i - 1) : BeforeSegN(H, it, c) = Nth(H, p - it.i - 1 - c)

\* --- what calls cost
\* a call takes a bounded number of steps on every level, also when it fails;
\* no step looks at more than three nodes
StepBound == pc # "rest" => r.w <= 2 * r.old.ht + 5
\* nodes entered going to the next segment, and entries passed going forward by a count
RECURSIVE NextCost(_, _, _, _)
NextCost(h, n, i, ht) ==
    IF n = NIL THEN 0 ELSE IF i + 1 # Nd(h, n).len THEN ht ELSE 1 + NextCost(h, Nd(h, n).par, Nd(h, n).pix, ht + 1)
RECURSIVE DescendCost(_, _, _, _)
DescendCost(h, n, ht, c) ==
    LET k == CHOOSE k \in 0..(Nd(h, n).len - 1) : c < SumSz(h, n, 0, k + 1) /\ c >= SumSz(h, n, 0, k)
    IN k + 1 + (IF ht = 2 THEN 0 ELSE DescendCost(h, Nd(h, n).ch[k], ht - 1, c - SumSz(h, n, 0, k)))
RECURSIVE FwdCost(_, _, _, _, _)
FwdCost(h, n, i, ht, c) ==
    IF n = NIL THEN 0
    ELSE IF i = Nd(h, n).len THEN 1 + FwdCost(h, Nd(h, n).par, Nd(h, n).pix + 1, ht + 1, c)
    ELSE IF Nd(h, n).sz[i] > c THEN IF ht = 1 THEN 1 ELSE 1 + DescendCost(h, Nd(h, n).ch[i], ht, c)
    ELSE 1 + FwdCost(h, n, i + 1, ht, c - Nd(h, n).sz[i])
JumpCost(h, it, d) == IF it.i + d < it.l \/ it.n = NIL THEN 1 ELSE 1 + FwdCost(h, it.n, it.k + 1, 1, it.i + d - it.l)
RECURSIVE JumpsCost(_, _, _)
JumpsCost(h, p, d) == IF p + d > h.size THEN 0 ELSE JumpCost(h, Nth(h, p), d) + JumpsCost(h, p + d, d)
RECURSIVE WalkCost(_, _)
WalkCost(h, p) ==
    IF p >= h.size THEN 0
    ELSE LET it == Nth(h, p) IN (IF it.n = NIL THEN 0 ELSE NextCost(h, it.n, it.k, 1)) + WalkCost(h, p + it.l)
RECURSIVE Bits(_)
Bits(n) == IF n <= 1 THEN 1 ELSE 1 + Bits(n \div 2)
Costs ==
    pc = "rest" =>
        \* visiting every segment once enters and leaves every node once
        /\ WalkCost(H, 0) <= 2 * Cardinality(Ids(H))
        \* lookups pass at most every entry of every node of a path
        /\ H.ht > 1 => \A p \in 0..(H.size - 1) : DescendCost(H, H.root, H.ht, p) <= B * (H.ht - 1)
        \* jumps: logarithmic in their distance, amortized, over all distances
        /\ \A d \in 1..H.size : JumpsCost(H, 0, d) <= 2 * B * ((H.size \div d) * Bits(d) + H.ht)

Abs == INSTANCE SegShape WITH h <- sh[1], t <- sh[2], Emit <- FALSE
Refines == Abs!Spec
=============================================================================
