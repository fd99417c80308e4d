------------------------------ MODULE Readers -------------------------------
(***************************************************************************)
(* Several readers observe two containers that nobody edits (C21).  A      *)
(* reader's call is not atomic: it is begun, works step by step on what it *)
(* has read, and answers.  Observing has no effect on the shared state, so *)
(* whatever the interleaving every answer is the one a single reader would *)
(* get.  The model walks all interleavings of the steps of a lookup; with  *)
(* Caching = TRUE a lookup leaves its position behind for the next one, as *)
(* an observer that is not pure would, and TLC refutes Answers: the        *)
(* property is not vacuous.  ReadersTrace judges the recorded answers of   *)
(* real threads.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NR, N, Caching     \* readers, elements, impure variant

VARIABLES cache,             \* shared: position and element index left behind
          pc, want, at       \* per reader: step, index asked for, position reached
vars == <<cache, pc, want, at>>

Readers == 1..NR
Init == cache = 0 /\ pc = [r \in Readers |-> "idle"] /\ want = [r \in Readers |-> 0] /\ at = [r \in Readers |-> 0]

Begin(r, i) == pc[r] = "idle" /\ pc' = [pc EXCEPT ![r] = "walk"] /\ want' = [want EXCEPT ![r] = i]
               /\ at' = [at EXCEPT ![r] = IF Caching THEN cache ELSE 0] /\ UNCHANGED cache
Walk(r) ==
    /\ pc[r] = "walk"
    /\ LET here == IF Caching THEN cache ELSE at[r]
           next == IF here < want[r] THEN here + 1 ELSE here - 1
       IN IF at[r] = want[r] THEN pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<cache, at>>
          ELSE at' = [at EXCEPT ![r] = IF Caching THEN at[r] + (IF at[r] < want[r] THEN 1 ELSE -1) ELSE next]
               /\ cache' = (IF Caching THEN next ELSE cache) /\ UNCHANGED pc
    /\ UNCHANGED want
Answer(r) == IF Caching THEN cache ELSE at[r]
Return(r) == pc[r] = "done" /\ pc' = [pc EXCEPT ![r] = "idle"] /\ UNCHANGED <<cache, want, at>>

Next == \E r \in Readers : (\E i \in 0..(N - 1) : Begin(r, i)) \/ Walk(r) \/ Return(r)
Spec == Init /\ [][Next]_vars

Answers == \A r \in Readers : pc[r] = "done" => Answer(r) = want[r]
Untouched == ~Caching => cache = 0
=============================================================================
