------------------------------- MODULE Bench -------------------------------
(***************************************************************************)
(* A benchmark run over a container that may be wrong, as the sequence of  *)
(* its phases: insert, compare the checksum, walk, erase, compare the      *)
(* rest.  Every list of positions up to the bound, every fault and every   *)
(* checksum of contents of that length is a behaviour.  A refused run ends *)
(* at once; here its later phases still happen, so that the verdict is     *)
(* compared with all the container would have shown.                       *)
(***************************************************************************)
EXTENDS BenchOps, FiniteSets, TLC

CONSTANTS MaxCount, MaxSize, Strides

VARIABLES phase, size, idx, right, got, given, fault, ec, verdict, ins
vars == <<phase, size, idx, right, got, given, fault, ec, verdict, ins>>

Block(i, n) == [k \in 1..n |-> (i - 1) * n + k]
Spoilt(b) == [b EXCEPT ![1] = 99]

Faults ==
    [kind : {"none", "first"}, at : {0}, m : {0}, d : {1}]
    \cup [kind : {"put", "val", "keep", "take"}, at : 1..MaxCount, m : {0}, d : {1}]
    \cup [kind : {"walk"}, at : 0..(MaxCount * MaxSize - 1), m : 0..1, d : Strides \cup {2}]

Init == /\ phase = "insert" /\ size \in 1..MaxSize /\ idx = <<>>
        /\ right = <<>> /\ got = <<>> /\ given = <<>> /\ ins = <<>>
        /\ fault \in Faults /\ ec = 0 /\ verdict = "none"

Other(p, n) == IF p = n THEN 0 ELSE n

Insert == /\ phase = "insert" /\ Len(idx) < MaxCount
          /\ \E p \in 0..Len(right) :
               LET k == Len(idx) + 1
                   b == Block(k, size)
                   hit(x) == fault.kind = x /\ fault.at = k
               IN /\ idx' = Append(idx, p)
                  /\ right' = InsertAt(right, p, b)
                  /\ got' = InsertAt(got, IF hit("put") THEN Other(p, Len(got)) ELSE p, IF hit("val") THEN Spoilt(b) ELSE b)
          /\ UNCHANGED <<phase, size, given, fault, ec, verdict, ins>>

\* the checksum: that of the right contents, of what the container holds, or none's
Sum == /\ phase = "insert" /\ idx # <<>>
       /\ given' \in {right, got, <<-1>>}
       /\ ins' = got
       /\ phase' = "walk"
       /\ verdict' = IF given' = got THEN verdict ELSE "refused"
       /\ UNCHANGED <<size, idx, right, got, fault, ec>>

Read(m, d, k) == got[k + 1] + (IF fault.kind = "walk" /\ fault.m = m /\ fault.d = d /\ fault.at = k /\ (IF m = 0 THEN k >= d ELSE k + 2 * d <= Len(got)) THEN 100 ELSE 0)
RECURSIVE SumOver(_, _, _)
SumOver(S, m, d) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN Read(m, d, k) + SumOver(S \ {k}, m, d)
RECURSIVE Plain(_)
Plain(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN got[k + 1] + Plain(S \ {k})
Visit(m, d) == IF m = 0 THEN {i * d : i \in 0..((Len(got) \div d) - 1)} ELSE {Len(got) - i * d : i \in 1..(Len(got) \div d)}
WalksAgree == \A m \in 0..1, d \in Strides : SumOver(Visit(m, d), m, d) = Plain(Visit(m, d))

Walk == /\ phase = "walk"
        /\ phase' = "erase"
        /\ verdict' = IF WalksAgree THEN verdict ELSE "refused"
        /\ UNCHANGED <<size, idx, right, got, given, fault, ec, ins>>

\* an erasure of n elements at p by a container that may be wrong
Taken(p, n, k) ==
    CASE fault.kind = "keep" /\ fault.at = k -> got
      [] fault.kind = "take" /\ fault.at = k /\ p > 0 -> EraseAt(got, p - 1, n)
      [] fault.kind = "take" /\ fault.at = k /\ p = 0 /\ n < Len(got) -> EraseAt(got, 1, n)
      [] OTHER -> EraseAt(got, p, n)

Erase == /\ phase = "erase"
         /\ ec' = ec + 1
         /\ IF Len(idx) > 1
            THEN /\ got' = Taken(idx[Len(idx)], size, ec')
                 /\ idx' = SubSeq(idx, 1, Len(idx) - 1)
                 /\ UNCHANGED <<phase, verdict>>
            ELSE /\ got' = IF size = 1 THEN got ELSE Taken(1, Len(got) - 1, ec')
                 /\ idx' = idx
                 /\ phase' = "done"
                 /\ verdict' = IF verdict = "none" /\ Len(got') = 1 /\ got'[1] = 1 /\ fault.kind # "first" THEN "ok" ELSE "refused"
         /\ UNCHANGED <<size, right, given, fault, ins>>

Next == Insert \/ Sum \/ Walk \/ Erase
Spec == Init /\ [][Next]_vars

\* a verdict says exactly what the definition used on recorded runs says
Judged == phase = "done" => (verdict = "ok" <=> Succeeds(given, ins, got, 1, fault, Strides))
\* a right container with its own checksum is never refused
Fair == phase = "done" /\ fault.kind = "none" /\ given = right => verdict = "ok"
\* success means the container was right wherever it was observed
Sound == verdict = "ok" => given = ins /\ got = <<1>> /\ WalksAgree
\* a run never reaches past the end while erasing
Valid == phase = "erase" /\ fault.kind = "none" => idx[Len(idx)] + size <= Len(got)
=============================================================================
