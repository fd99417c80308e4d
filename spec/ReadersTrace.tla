---------------------------- MODULE ReadersTrace ----------------------------
(***************************************************************************)
(* Answers recorded from threads that observed two containers at the same  *)
(* time (C21): each must be what the sequence gives, whatever the others   *)
(* were doing; a reported data race is never acceptable.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l

RECURSIVE Hash(_, _)
Hash(s, i) == IF i = 0 THEN 0 ELSE (Hash(s, i - 1) * 31 + s[i] + 7) % 1000003
Back(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Less(a, b) == \E i \in 1..(Len(a) + 1) :
                 /\ \A j \in 1..(i - 1) : j <= Len(b) /\ a[j] = b[j]
                 /\ i <= Len(b)
                 /\ (i > Len(a) \/ a[i] < b[i])
Bool(x) == IF x THEN 1 ELSE 0

Right(d, fw, bw, cmp, q) ==
    LET x == d[q[3]]
        i == q[2]
    IN q[4] = CASE q[1] = 0 -> Len(x)
                [] q[1] = 1 -> Bool(x = <<>>)
                [] q[1] \in {2, 3, 4} -> x[i + 1]
                [] q[1] = 5 -> i
                [] q[1] = 6 -> x[1]
                [] q[1] = 7 -> x[Len(x)]
                [] q[1] \in {8, 11} -> fw[q[3]]
                [] q[1] = 9 -> bw[q[3]]
                [] q[1] = 10 -> cmp
                [] q[1] = 12 -> i
                [] OTHER -> 1

Init == c = <<>> /\ l = 1
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       /\ l' = l + 1
       /\ CASE e.op = "round" -> c' = [d |-> e.c, fw |-> [s \in 1..2 |-> Hash(e.c[s], Len(e.c[s]))],
                                       bw |-> [s \in 1..2 |-> Hash(Back(e.c[s]), Len(e.c[s]))],
                                       cmp |-> Bool(e.c[1] = e.c[2]) + 2 * Bool(Less(e.c[1], e.c[2])) + 4 * Bool(Less(e.c[2], e.c[1]))]
            [] e.op = "reads" -> /\ c' = c
                                 /\ \/ \A k \in 1..Len(e.q) : Right(c.d, c.fw, c.bw, c.cmp, e.q[k])
                                    \/ PrintT("REJECT answer event " \o ToString(l) \o " thread " \o ToString(e.t)) /\ FALSE
            [] OTHER -> PrintT("REJECT race event " \o ToString(l) \o " " \o e.op) /\ FALSE
Spec == Init /\ [][Next]_<<c, l>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
