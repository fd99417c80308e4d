------------------------------ MODULE CostTrace ------------------------------
(***************************************************************************)
(* Cost of single edits on containers too large to write their contents    *)
(* into every event (C17): the event carries the counters, the heights and *)
(* the allocators; the state kept is the allocator of each slot and the    *)
(* height before the call.                                                 *)
(***************************************************************************)
EXTENDS SeqTrace

CostNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
           t == IF e.ev = 1 THEN [v |-> InitVal, u |-> InitUp, l |-> InitAl, i |-> InitIts] ELSE St
       IN IF e.op \in Broken
          THEN /\ PrintT("REJECT " \o e.op \o " history " \o ToString(e.hi) \o " event 0 op " \o e.op)
               /\ FALSE
          ELSE /\ l' = l + 1
               /\ prev' = e.d
               /\ Chk(e, "cost", e.op = "snap" \/ CostOK(t, e))
               /\ al' = ObsAl(e)
               /\ up' = ObsUp(e)
               /\ val' = InitVal
               /\ its' = InitIts

TraceSpecCost == TraceInit /\ [][CostNext]_tvars
=============================================================================
