------------------------------ MODULE BenchOps ------------------------------
(***************************************************************************)
(* What a benchmark run (bench/single.hpp, bench/range.hpp) observes of    *)
(* the container it measures, and when it may call the run a success.      *)
(* A fault is what a wrong container does:                                 *)
(*   none                                                                  *)
(*   put  at       block `at` goes to another place                        *)
(*   val  at       block `at` gets another first value                     *)
(*   walk m d at   element `at` (0-based) is misread when the element read *)
(*                 before it was d in front of it (m = 0) or behind it     *)
(*   keep at       erasure `at` takes nothing                              *)
(*   take at       erasure `at` takes other elements                       *)
(*   first         container[0] is misread                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

InsertAt(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))
EraseAt(s, p, n) == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
Blk(v, i, n) == SubSeq(v, (i - 1) * n + 1, i * n)

\* inserted contents of a workload: positions ix, values v, blocks of n
RECURSIVE Contents(_, _, _, _)
Contents(ix, v, n, k) == IF k = 0 THEN <<>> ELSE InsertAt(Contents(ix, v, n, k - 1), ix[k], Blk(v, k, n))

\* elements (0-based) that a walk by d over n elements reads after another
Reached(m, d, n) == IF m = 0 THEN {i * d : i \in 1..((n \div d) - 1)} ELSE {n - i * d : i \in 2..(n \div d)}
\* a run walks by each of the strides, 1 among them, in both directions
WalkShown(f, n, strides) == f.kind = "walk" /\ f.d \in strides /\ f.at \in Reached(f.m, f.d, n)

\* given: contents the checksum handed to the run belongs to (a checksum of
\* nothing real: <<-1>>); ins: contents after inserting; fin: what the
\* container leaves when the workload is erased, whether the run gets there or not.
Succeeds(given, ins, fin, first, f, strides) ==
    /\ given = ins
    /\ ~WalkShown(f, Len(ins), strides)
    /\ f.kind # "first"
    /\ fin = <<first>>
=============================================================================
