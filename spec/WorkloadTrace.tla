--------------------------- MODULE WorkloadTrace ---------------------------
(***************************************************************************)
(* Judges recorded runs of the workload helpers in common/.  Events:       *)
(*  gen   positions and block values generated for (count, size)           *)
(*  use   the insertions and erasures performed on a recording container,  *)
(*        and the contents of seq and std::vector after inserting and      *)
(*        after erasing                                                    *)
(*  acc   the accumulation helpers on equal contents in two containers     *)
(*  rnd   bounded_rand: for every draw the result (-1: drawn again)        *)
(*  hist  bounded_rand: how many draws give each result                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

InsertAt(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))
Range(s) == {s[i] : i \in 1..Len(s)}
Blk(v, i, n) == SubSeq(v, (i - 1) * n + 1, i * n)

RECURSIVE Contents(_, _, _, _)
Contents(ix, v, n, k) == IF k = 0 THEN <<>> ELSE InsertAt(Contents(ix, v, n, k - 1), ix[k], Blk(v, k, n))

Chk(e, name, c) == IF c THEN TRUE ELSE PrintT("REJECT " \o name \o " event " \o ToString(l) \o " op " \o e.op \o " " \o ToString(e.id)) /\ FALSE

GenOK(e) ==
    /\ Chk(e, "count", Len(e.ix) = e.count /\ Len(e.v) = e.count * e.size)
    /\ Chk(e, "position", \A i \in 1..Len(e.ix) : 0 <= e.ix[i] /\ e.ix[i] <= (i - 1) * e.size)
    /\ Chk(e, "seed", e.same = 1)

UseOK(e) ==
    LET want == Contents(e.ix, e.v, e.size, e.count)
        N == e.count
    IN /\ Chk(e, "calls", e.bad = 0)
       /\ Chk(e, "inserted", \A c \in Range(e.after) : c = want)
       /\ Chk(e, "erased", \A c \in Range(e.final) : c = SubSeq(e.v, 1, 1))

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* elements 0, d, 2d, ... as long as d elements are left
Fwd(s, d) == [i \in 1..(Len(s) \div d) |-> s[(i - 1) * d + 1]]
Bwd(s, d) == [i \in 1..(Len(s) \div d) |-> s[Len(s) - i * d + 1]]

AccOK(e) ==
    /\ Chk(e, "forward", \A r \in Range(e.fw) : r = Sum(e.c))
    /\ Chk(e, "backward", \A r \in Range(e.bw) : r = Sum(e.c))
    /\ Chk(e, "forward_by", \A k \in 1..Len(e.ds) : \A r \in Range(e.fb[k]) : r = Sum(Fwd(e.c, e.ds[k])))
    /\ Chk(e, "backward_by", \A k \in 1..Len(e.ds) : \A r \in Range(e.bb[k]) : r = Sum(Bwd(e.c, e.ds[k])))

\* every value below the bound equally often, and at least once
RndOK(e) ==
    LET hits(v) == Cardinality({k \in 1..Len(e.r) : e.r[k] = v})
        h0 == hits(0)
    IN /\ Chk(e, "below", \A k \in 1..Len(e.r) : e.r[k] < e.bound)
       /\ Chk(e, "uniform", h0 > 0 /\ \A v \in 0..(e.bound - 1) : hits(v) = h0)

HistOK(e) ==
    /\ Chk(e, "below", e.over = 0)
    /\ Chk(e, "uniform", e.h[1] > 0 /\ \A k \in 1..Len(e.h) : e.h[k] = e.h[1])

Step(e) ==
    CASE e.op = "gen" -> GenOK(e)
      [] e.op = "use" -> UseOK(e)
      [] e.op = "acc" -> AccOK(e)
      [] e.op = "rnd" -> RndOK(e)
      [] e.op = "hist" -> HistOK(e)
      [] OTHER -> Chk(e, "crash", FALSE)

Init == l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
