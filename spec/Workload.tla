------------------------------ MODULE Workload ------------------------------
(***************************************************************************)
(* The benchmark workloads of common/: a workload of `count` blocks of     *)
(* `size` elements is a list of positions, position i valid for a          *)
(* sequence of (i-1)*size elements.  Inserting performs the blocks in      *)
(* order, erasing takes them out in reverse and stops at the first         *)
(* element.  Here every list of positions is a behaviour, so that the      *)
(* invariants speak about every seed.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxCount, MaxSize

VARIABLES phase, size, idx, seq
wvars == <<phase, size, idx, seq>>

InsertAt(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))
EraseAt(s, p, n) == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
\* block i carries the elements (i-1)*size+1 .. i*size
Block(i, n) == [k \in 1..n |-> (i - 1) * n + k]

Init == /\ phase = "insert"
        /\ size \in 1..MaxSize
        /\ idx = <<>>
        /\ seq = <<>>

Insert == /\ phase = "insert"
          /\ Len(idx) < MaxCount
          /\ \E p \in 0..Len(seq) :
               /\ idx' = Append(idx, p)
               /\ seq' = InsertAt(seq, p, Block(Len(idx) + 1, size))
          /\ UNCHANGED <<phase, size>>

Turn == /\ phase = "insert" /\ idx # <<>>
        /\ phase' = "erase"
        /\ UNCHANGED <<size, idx, seq>>

Erase == /\ phase = "erase" /\ Len(idx) > 1
         /\ seq' = EraseAt(seq, idx[Len(idx)], size)
         /\ idx' = SubSeq(idx, 1, Len(idx) - 1)
         /\ UNCHANGED <<phase, size>>

Last == /\ phase = "erase" /\ Len(idx) = 1
        /\ seq' = SubSeq(seq, 1, 1)
        /\ phase' = "done"
        /\ UNCHANGED <<size, idx>>

Next == Insert \/ Turn \/ Erase \/ Last
Spec == Init /\ [][Next]_wvars

\* every position is valid when it is used, while inserting and while erasing
Valid == phase = "erase" => idx[Len(idx)] + size <= Len(seq)
SizeOK == phase # "done" => Len(seq) = Len(idx) * size
\* erasing undoes inserting, block by block
Undo == phase = "erase" /\ Len(idx) = 1 => seq = Block(1, size)
SelfInverse == phase = "done" => seq = <<1>>
Distinct == Cardinality({seq[i] : i \in 1..Len(seq)}) = Len(seq)
=============================================================================
