---------------------------- MODULE NoexceptTrace ----------------------------
(***************************************************************************)
(* The exception specifications of seq, as a function of the declared      *)
(* properties of its allocator.  Each event is one instantiation: f is     *)
(* <<POCMA, POCS, nothrow default construction, nothrow move construction, *)
(* nothrow move assignment, nothrow swap>> of the allocator as the type    *)
(* traits report them, r the same questions asked of seq: <<default        *)
(* construction, move construction, move assignment, member swap, free     *)
(* swap, destruction, clear>>.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Implies(a, b) == IF a = 1 THEN b ELSE 1
And(a, b) == IF a = 1 /\ b = 1 THEN 1 ELSE 0
Or(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE 0
Expected(f) ==
    LET pocma == f[1]
        pocs == f[2]
        swap == Or(1 - pocs, f[6])
    IN << f[3], f[4], And(pocma, f[5]), swap, swap, 1, 1 >>

Init == l = 1
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       IF e.r = Expected(e.f) THEN TRUE
       ELSE PrintT("REJECT noexcept history 1 event " \o ToString(l) \o " op noexcept " \o ToString(e.f) \o ToString(e.r)) /\ FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
