----------------------------- MODULE BenchTrace -----------------------------
(***************************************************************************)
(* Judges recorded runs of the generator and benchmark programs. Events:   *)
(*  print  what a generator printed: its seed, the workload that seed      *)
(*         gives (ix, v), contents c built from it, same = 1 if the        *)
(*         printed checksum is that of c                                   *)
(*  sum    checksums s of contents c of equal length                       *)
(*  bench  a run on a container with a fault: workload, contents the       *)
(*         checksum was made of, contents after inserting, after erasing,  *)
(*         out = 1 if the run succeeded                                    *)
(*  large  the same with the number of elements and comparisons only       *)
(*  usage  a wrong number of arguments: out, and the bytes printed         *)
(***************************************************************************)
EXTENDS BenchOps, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Strides == {1, 10, 100, 1000, 10000}
Chk(e, name, c) == IF c THEN TRUE ELSE PrintT("REJECT " \o name \o " event " \o ToString(l) \o " op " \o e.op \o " " \o ToString(e.id)) /\ FALSE

PrintOK(e) ==
    /\ Chk(e, "exit", e.out = 1)
    /\ Chk(e, "workload", Len(e.ix) = e.count /\ Len(e.v) = e.count * e.size)
    /\ Chk(e, "contents", e.c = Contents(e.ix, e.v, e.size, e.count))
    /\ Chk(e, "checksum", e.same = 1)

SumOK(e) == Chk(e, "checksum", \A i, j \in 1..Len(e.c) : (e.c[i] = e.c[j]) <=> (e.s[i] = e.s[j]))

BenchOK(e) ==
    LET want == Contents(e.ix, e.v, e.size, e.count)
    IN /\ Chk(e, "inserted", e.f.kind \notin {"put", "val"} => e.ins = want)
       /\ Chk(e, "verdict", (e.out = 1) <=> Succeeds(e.given, e.ins, e.fin, e.v[1], e.f, Strides))

LargeOK(e) ==
    /\ Chk(e, "inserted", e.f.kind \notin {"put", "val"} => e.right = 1)
    /\ Chk(e, "verdict", (e.out = 1) <=> (e.match = 1 /\ ~WalkShown(e.f, e.n, Strides) /\ e.f.kind # "first" /\ e.left = 1))

UsageOK(e) == Chk(e, "usage", e.out = 0 /\ e.bytes = 0)

Step(e) ==
    CASE e.op = "print" -> PrintOK(e)
      [] e.op = "sum" -> SumOK(e)
      [] e.op = "bench" -> BenchOK(e)
      [] e.op = "large" -> LargeOK(e)
      [] e.op = "usage" -> UsageOK(e)
      [] OTHER -> Chk(e, "crash", FALSE)

Init == l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
