-------------------------------- MODULE Seq ---------------------------------
(***************************************************************************)
(* User-level specification of boost::segmented_tree::seq: a fixed number  *)
(* of container slots, each empty of a container or holding a sequence and *)
(* an allocator, and a few iterators the user holds.  A call c is a record *)
(*   [op |-> name, a |-> numeric arguments, vs |-> source values].         *)
(* Eff(c) is its effect when it succeeds; FailSets/FailStrong describe     *)
(* what an exception may leave behind.  The same definitions drive the     *)
(* bounded exhaustive model (MCSeq) and judge recorded traces (SeqTrace).  *)
(***************************************************************************)
EXTENDS SeqOps

CONSTANTS
    NSlots,       \* number of container slots
    NHeld,        \* number of held iterators
    Traits        \* allocator traits: 1 POCCA, 2 POCMA, 4 POCS, 8 always equal,
                  \* 32 select_on_container_copy_construction gives label 90

VARIABLES
    val,          \* val[s]: contents of slot s
    up,           \* up[s]: a container lives in slot s
    al,           \* al[s]: allocator label of slot s
    its           \* its[h]: held iterators [on, s, p]
vars == <<val, up, al, its>>

Slots == 1..NSlots
Helds == 1..NHeld
Bit(k) == (Traits \div k) % 2 = 1
POCCA == Bit(1)
POCMA == Bit(2)
POCS  == Bit(4)
EqAll == Bit(8)
SOC   == Bit(32)
Grp(lab) == IF EqAll THEN 0 ELSE lab \div 10
SameAlloc(x, y) == Grp(x) = Grp(y)
DefaultLabel == 10

NoIt == [on |-> FALSE, s |-> 0, p |-> 0]
InitVal == [s \in Slots |-> <<>>]
InitUp == [s \in Slots |-> FALSE]
InitAl == [s \in Slots |-> 0]
InitIts == [h \in Helds |-> NoIt]
Init == val = InitVal /\ up = InitUp /\ al = InitAl /\ its = InitIts

(***************************************************************************)
(* State as a record, so that effects compose as functions.                *)
(***************************************************************************)
St == [v |-> val, u |-> up, l |-> al, i |-> its]

DropIts(i, s) == [h \in Helds |-> IF i[h].on /\ i[h].s = s THEN NoIt ELSE i[h]]
MoveIts(i, o, s) == [h \in Helds |-> IF i[h].on /\ i[h].s = o THEN [i[h] EXCEPT !.s = s] ELSE i[h]]
SwapIts(i, s, o) == [h \in Helds |-> IF i[h].on /\ i[h].s = s THEN [i[h] EXCEPT !.s = o]
                                     ELSE IF i[h].on /\ i[h].s = o THEN [i[h] EXCEPT !.s = s] ELSE i[h]]

\* effect record: state, position of the returned iterator (-1: none), slots whose
\* contents the call leaves unspecified
Effect(t, r, free) == [st |-> t, r |-> r, free |-> free]
Edit(t, s, c, r) == Effect([t EXCEPT !.v = [t.v EXCEPT ![s] = c], !.i = DropIts(t.i, s)], r, {})
Make(t, s, c, lab) == Effect([t EXCEPT !.v = [t.v EXCEPT ![s] = c], !.u = [t.u EXCEPT ![s] = TRUE],
                                       !.l = [t.l EXCEPT ![s] = lab]], -1, {})

\* the value an operation argument that refers to the container's own element has
\* before the call
Own(t, s, q) == t.v[s][q + 1]

Eff(t, c) ==
    LET a == c.a
        s == IF a = <<>> THEN 1 ELSE a[1]
        w == IF s \in Slots THEN t.v[s] ELSE <<>>
        n == Len(w)
        op == c.op
    IN CASE
       \* ---- single edits
          op = "ins"   -> Edit(t, s, InsertSeq(w, a[2], <<IF a[3] = 4 THEN DefaultVal ELSE a[4]>>), a[2])
       [] op = "push"  -> Edit(t, s, InsertSeq(w, IF a[2] < 3 THEN n ELSE 0, <<a[3]>>), -1)
       [] op = "insa"  -> Edit(t, s, InsertSeq(w, a[2], <<Own(t, s, a[4])>>), IF a[3] < 2 THEN a[2] ELSE -1)
       [] op = "empf"  -> Edit(t, s, InsertSeq(w, IF a[3] < 10 THEN a[2] ELSE IF a[3] < 20 THEN n ELSE 0,
                                               <<IF a[3] = 6 THEN DefaultVal ELSE a[4]>>),
                               IF a[3] < 10 THEN a[2] ELSE -1)
       [] op = "er"    -> Edit(t, s, EraseRange(w, a[2], a[2] + 1), a[2])
       [] op = "pop"   -> Edit(t, s, IF a[2] = 0 THEN EraseRange(w, n - 1, n) ELSE EraseRange(w, 0, 1), -1)
       \* ---- bulk edits
       [] op = "insn"  -> Edit(t, s, InsertSeq(w, a[2], Rep(a[3], a[4])), a[2])
       [] op = "insna" -> Edit(t, s, InsertSeq(w, a[2], Rep(a[3], Own(t, s, a[4]))), a[2])
       [] op = "insr"  -> Edit(t, s, InsertSeq(w, a[2], c.vs), a[2])
       [] op = "inss"  -> Edit(t, s, InsertSeq(w, a[2], Slice(t.v[a[3]], a[4], a[5])), a[2])
       [] op = "err"   -> Edit(t, s, EraseRange(w, a[2], a[3]), a[2])
       [] op = "asn"   -> Edit(t, s, Rep(a[2], a[3]), -1)
       [] op = "asna"  -> Edit(t, s, Rep(a[2], Own(t, s, a[3])), -1)
       [] op = "asr"   -> Edit(t, s, c.vs, -1)
       [] op = "res"   -> Edit(t, s, Resized(w, a[2], DefaultVal), -1)
       [] op = "resv"  -> Edit(t, s, Resized(w, a[2], a[3]), -1)
       [] op = "resa"  -> Edit(t, s, Resized(w, a[2], Own(t, s, a[3])), -1)
       [] op = "clr"   -> Edit(t, s, <<>>, -1)
       \* ---- construction and destruction
       [] op = "mkz"   -> Make(t, s, <<>>, DefaultLabel)
       [] op = "mk"    -> Make(t, s, <<>>, a[2])
       [] op = "mkn"   -> Make(t, s, Rep(a[3], a[4]), a[2])
       [] op = "mkd"   -> Make(t, s, Rep(a[3], DefaultVal), a[2])
       [] op = "mkr"   -> Make(t, s, c.vs, a[2])
       [] op = "cpc"   -> Make(t, s, t.v[a[2]], IF SOC THEN 90 ELSE t.l[a[2]])
       [] op = "cpca"  -> Make(t, s, t.v[a[2]], a[3])
       [] op = "mvc"   -> LET m == Make(t, s, t.v[a[2]], t.l[a[2]]).st
                          IN Effect([m EXCEPT !.v = [m.v EXCEPT ![a[2]] = <<>>], !.i = MoveIts(t.i, a[2], s)], -1, {})
       [] op = "mvca"  -> LET m == Make(t, s, t.v[a[2]], a[3]).st
                          IN IF SameAlloc(a[3], t.l[a[2]])
                             THEN Effect([m EXCEPT !.v = [m.v EXCEPT ![a[2]] = <<>>], !.i = MoveIts(t.i, a[2], s)], -1, {})
                             ELSE Effect([m EXCEPT !.i = DropIts(t.i, a[2])], -1, {a[2]})
       [] op = "dt"    -> Effect([t EXCEPT !.v = [t.v EXCEPT ![s] = <<>>], !.u = [t.u EXCEPT ![s] = FALSE],
                                           !.l = [t.l EXCEPT ![s] = 0], !.i = DropIts(t.i, s)], -1, {})
       [] op = "end"   -> Effect([v |-> InitVal, u |-> InitUp, l |-> InitAl, i |-> InitIts], -1, {})
       \* ---- whole containers
       [] op = "cpa"   -> IF s = a[2] THEN Effect(t, -1, {})
                          ELSE LET m == Edit(t, s, t.v[a[2]], -1).st
                               IN Effect([m EXCEPT !.l = [t.l EXCEPT ![s] = IF POCCA THEN t.l[a[2]] ELSE @]], -1, {})
       [] op = "mva"   -> LET o == a[2]
                              m == Edit(t, s, t.v[o], -1).st
                          IN IF POCMA \/ SameAlloc(t.l[s], t.l[o])
                             THEN Effect([m EXCEPT !.v = [m.v EXCEPT ![o] = <<>>],
                                                   !.l = [t.l EXCEPT ![s] = IF POCMA THEN t.l[o] ELSE @],
                                                   !.i = MoveIts(m.i, o, s)], -1, {})
                             ELSE Effect([m EXCEPT !.i = DropIts(m.i, o)], -1, {o})
       [] op = "swp"   -> LET o == a[2]
                          IN IF s = o THEN Effect(t, -1, {})
                             ELSE Effect([t EXCEPT !.v = [t.v EXCEPT ![s] = t.v[o], ![o] = t.v[s]],
                                                   !.l = IF POCS THEN [t.l EXCEPT ![s] = t.l[o], ![o] = t.l[s]] ELSE @,
                                                   !.i = SwapIts(t.i, s, o)], -1, {})
       \* ---- transfer between containers
       [] op = "spl"   -> LET m == Edit(t, s, InsertSeq(w, a[2], t.v[a[3]]), -1).st IN Edit(m, a[3], <<>>, -1)
       [] op = "sp1"   -> LET m == Edit(t, s, InsertSeq(w, a[2], Slice(t.v[a[3]], a[4], a[4] + 1)), -1).st
                          IN Edit(m, a[3], EraseRange(t.v[a[3]], a[4], a[4] + 1), -1)
       [] op = "spr"   -> LET m == Edit(t, s, InsertSeq(w, a[2], Slice(t.v[a[3]], a[4], a[5])), -1).st
                          IN Edit(m, a[3], EraseRange(t.v[a[3]], a[4], a[5]), -1)
       [] op = "mrg"   -> LET m == Edit(t, s, Merged(w, t.v[a[2]], a[4]), -1).st IN Edit(m, a[2], <<>>, -1)
       \* ---- algorithms
       [] op = "rem"   -> Edit(t, s, RemoveKey(w, a[2]), -1)
       [] op = "remif" -> Edit(t, s, RemoveMod(w, a[2], a[3]), -1)
       [] op = "uni"   -> Edit(t, s, Unique(w, a[2]), -1)
       [] op = "rev"   -> Effect([t EXCEPT !.v = [t.v EXCEPT ![s] = Rev(w)]], -1, {})
       [] op = "srt"   -> Effect([t EXCEPT !.v = [t.v EXCEPT ![s] = StableSort(w, a[2])]], -1, {})
       [] op = "wr"    -> Effect([t EXCEPT !.v = [t.v EXCEPT ![s] = [w EXCEPT ![a[2] + 1] = a[4]]]], -1, {})
       \* ---- iterators
       [] op = "hold"  -> Effect([t EXCEPT !.i = [t.i EXCEPT ![a[1]] = [on |-> TRUE, s |-> a[2], p |-> a[3]]]], -1, {})
       [] op = "chk"   -> Effect(t, t.i[a[1]].p, {})
       [] op = "eh"    -> Edit(t, t.i[a[1]].s, EraseRange(t.v[t.i[a[1]].s], t.i[a[1]].p, t.i[a[1]].p + 1), t.i[a[1]].p)
       [] op = "ih"    -> Edit(t, t.i[a[1]].s, InsertSeq(t.v[t.i[a[1]].s], t.i[a[1]].p, <<a[3]>>), t.i[a[1]].p)
       \* ---- observers
       [] OTHER        -> Effect(t, -1, {})

\* Slot of the container an iterator-returning call works on.
RetSlot(t, c) == IF c.op \in {"chk", "eh", "ih"} THEN t.i[c.a[1]].s ELSE c.a[1]

(***************************************************************************)
(* Preconditions: what a caller must respect (the traces respect it by     *)
(* construction of the generators; the model uses it as guard).            *)
(***************************************************************************)
Makers == {"mkz", "mk", "mkn", "mkd", "mkr", "cpc", "cpca", "mvc", "mvca"}
InContract(t, c) ==
    CASE c.op = "mrg" -> IsSorted(t.v[c.a[1]], c.a[4]) /\ IsSorted(t.v[c.a[2]], c.a[4])
      [] c.op = "swp" -> c.a[1] = c.a[2] \/ POCS \/ SameAlloc(t.l[c.a[1]], t.l[c.a[2]])
      [] OTHER -> TRUE

(***************************************************************************)
(* Failure.  Strong calls leave everything as it was; other calls that can *)
(* throw leave the listed slots with unspecified valid contents.           *)
(***************************************************************************)
Strong == {"ins", "push", "insa", "empf", "ih", "res"}
Basic == {"insn", "insna", "insr", "inss", "asn", "asna", "asr", "resv", "resa", "cpa", "mva",
          "spl", "sp1", "spr", "mrg", "rem", "remif", "uni", "srt"}
NoFail == {"er", "pop", "err", "clr", "dt", "end", "swp", "mvc", "rev", "hold", "chk", "eh", "cmp",
           "idx", "its", "seg", "pur", "wr", "snap", "mkz", "mk"}

\* slots whose contents an exception may change
Touched(c) ==
    CASE c.op \in Strong \cup {"cmp"} -> {}
      [] c.op \in {"cpc", "cpca", "inss"} -> IF c.op = "inss" THEN {c.a[1]} ELSE {}
      [] c.op \in {"mvca"} -> {c.a[2]}
      [] c.op = "cpa" -> {c.a[1]}
      [] c.op \in {"mva", "mrg"} -> {c.a[1], c.a[2]}
      [] c.op \in {"spl", "sp1", "spr"} -> {c.a[1], c.a[3]}
      [] c.op \in Makers -> {}
      [] OTHER -> {c.a[1]}

\* may call c throw at all when resources are short?
MayThrow(t, c) ==
    CASE c.op \in NoFail \cup {"rem", "remif", "uni"} -> FALSE
      [] c.op = "mva" -> ~(POCMA \/ SameAlloc(t.l[c.a[1]], t.l[c.a[2]]))
      [] c.op = "mvca" -> ~SameAlloc(c.a[3], t.l[c.a[2]])
      [] c.op \in {"res"} -> c.a[2] > Len(t.v[c.a[1]])
      [] OTHER -> TRUE

\* values that may be seen in a touched container after a failure
AllVals(t) == UNION {Range(t.v[s]) : s \in Slots}
FailVals(t, c) == AllVals(t) \cup Range(c.vs) \cup Range(c.a) \cup {MOVED, DefaultVal}

\* iterators after a failed call: a strong call keeps them
FailIts(t, c) ==
    IF c.op \in Strong THEN t.i
    ELSE [h \in Helds |-> IF t.i[h].on /\ t.i[h].s \in Touched(c) THEN NoIt ELSE t.i[h]]
=============================================================================
