------------------------------- MODULE MCSeq --------------------------------
(***************************************************************************)
(* Bounded exhaustive model of Seq at the level of whole containers: which *)
(* slots hold a container, with which allocator, how much is in it (none,  *)
(* one element, more), and where a held iterator points.  Every call that  *)
(* creates, copies, moves, swaps, splices, merges or destroys containers   *)
(* is a transition; the graph is printed and every transition is run on    *)
(* the real container, the recorded trace being judged with exact contents.*)
(* The invariants are consequences of Seq's effects for every history.     *)
(***************************************************************************)
EXTENDS Seq

CONSTANTS Labels, Emit

Z(n) == Rep(n, 0)
Live == {s \in Slots : up[s]}
Rec(op, a, vs) == [op |-> op, a |-> a, vs |-> vs]
Ends(s) == {0, Len(val[s])}

Calls ==
    LET mk == UNION { { Rec("mk", <<s, l>>, <<>>), Rec("mkr", <<s, l, 2>>, Z(1)), Rec("mkr", <<s, l, 2>>, Z(2)) } : s \in Slots \ Live, l \in Labels }
        two == {<<s, o>> \in Slots \X Live : s # o}
        make == { Rec("cpc", x, <<>>) : x \in {y \in two : y[1] \notin Live} }
                \cup { Rec("mvc", x, <<>>) : x \in {y \in two : y[1] \notin Live} }
                \cup { Rec("cpca", <<x[1], x[2], l>>, <<>>) : x \in {y \in two : y[1] \notin Live}, l \in Labels }
                \cup { Rec("mvca", <<x[1], x[2], l>>, <<>>) : x \in {y \in two : y[1] \notin Live}, l \in Labels }
        pairs == {x \in two : x[1] \in Live}
        whole == { Rec("cpa", x, <<>>) : x \in pairs \cup {<<s, s>> : s \in Live} }
                 \cup { Rec("mva", x, <<>>) : x \in pairs }
                 \cup { Rec("swp", <<x[1], x[2], f>>, <<>>) : x \in pairs \cup {<<s, s>> : s \in Live}, f \in {0, 1} }
        move == UNION { { Rec("spl", <<x[1], p, x[2], f>>, <<>>) : p \in Ends(x[1]), f \in {0, 1} } : x \in pairs }
                \cup UNION { { Rec("sp1", <<x[1], p, x[2], q, 0>>, <<>>) : p \in Ends(x[1]), q \in 0..(Len(val[x[2]]) - 1) } : x \in pairs }
                \cup UNION { { Rec("spr", <<x[1], p, x[2], q[1], q[2], 0>>, <<>>) :
                               p \in Ends(x[1]), q \in {y \in (0..Len(val[x[2]])) \X (0..Len(val[x[2]])) : y[1] <= y[2]} } : x \in pairs }
                \cup { Rec("mrg", <<x[1], x[2], f, 0>>, <<>>) : x \in pairs, f \in {0, 1} }
                \cup UNION { { Rec("inss", <<x[1], p, x[2], 0, Len(val[x[2]])>>, <<>>) : p \in Ends(x[1]) } : x \in pairs }
        edit == { Rec("insr", <<s, Len(val[s]), 1>>, Z(1)) : s \in {x \in Live : Len(val[x]) < 2} }
                \cup { Rec("err", <<s, Len(val[s]) - 1, Len(val[s])>>, <<>>) : s \in {x \in Live : val[x] # <<>>} }
                \cup { Rec("clr", <<s>>, <<>>) : s \in Live } \cup { Rec("dt", <<s>>, <<>>) : s \in Live }
        held == UNION { { Rec("hold", <<h, s, p>>, <<>>) : p \in 0..(Len(val[s]) - 1) } : h \in Helds, s \in {x \in Live : val[x] # <<>>} }
                \cup UNION { { Rec("eh", <<h>>, <<>>), Rec("ih", <<h, 0, 0>>, <<>>) } : h \in {x \in Helds : its[x].on} }
    IN mk \cup make \cup whole \cup move \cup edit \cup held

\* more than two elements count as two; what a call leaves unspecified is cleared
Cap(t, free) ==
    LET v == [s \in Slots |-> IF s \in free THEN <<>> ELSE IF Len(t.v[s]) > 2 THEN SubSeq(t.v[s], 1, 2) ELSE t.v[s]]
    IN [t EXCEPT !.v = v, !.i = [h \in Helds |-> IF t.i[h].on /\ t.i[h].p >= Len(v[t.i[h].s]) THEN NoIt ELSE t.i[h]]]

Name(t) == ToString(<<[s \in Slots |-> IF t.u[s] THEN <<t.l[s], Len(t.v[s])>> ELSE <<>>],
                      [h \in Helds |-> IF t.i[h].on THEN <<t.i[h].s, t.i[h].p>> ELSE <<>>]>>)
Edge(c, t, e) == IF Emit THEN PrintT("E;" \o Name(St) \o ";" \o c.op \o ";" \o ToString(c.a) \o ";" \o ToString(Len(c.vs)) \o ";"
                                     \o Name(t) \o ";" \o ToString(e.free)) ELSE TRUE

Do(c) ==
    /\ InContract(St, c)
    /\ LET e == Eff(St, c)
           t == Cap(e.st, e.free)
       IN /\ val' = t.v /\ up' = t.u /\ al' = t.l /\ its' = t.i
          /\ Edge(c, t, e)
Next == \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- invariants
ItsOK == \A h \in Helds : its[h].on => up[its[h].s] /\ its[h].p \in 0..(Len(val[its[h].s]) - 1)
DeadEmpty == \A s \in Slots : ~up[s] => val[s] = <<>> /\ al[s] = 0
Lens(v) == SumSeq([s \in Slots |-> Len(v[s])])
LabelsOK == \A s \in Live : al[s] \in Labels \cup {90, DefaultLabel}
\* for every enabled call: moves neither create nor lose elements, held iterators keep
\* their element, allocators change only as the traits say
CallsOK ==
    \A c \in {x \in Calls : InContract(St, x)} :
        LET e == Eff(St, c).st
            f == Eff(St, c).free
        IN /\ c.op \in {"mvc", "swp", "spl", "sp1", "spr", "mrg"} => Lens(e.v) = Lens(val)
           /\ c.op \in {"mvc", "swp"} \/ (c.op \in {"mva", "mvca"} /\ f = {}) =>
                 \A h \in Helds : its[h].on /\ ~(c.op = "mva" /\ its[h].s = c.a[1]) =>
                     e.i[h].on /\ e.i[h].p = its[h].p /\ e.v[e.i[h].s] = val[its[h].s]
           /\ c.op \in {"mvc", "mva", "mvca"} /\ f = {} => e.v[c.a[2]] = <<>> /\ e.v[c.a[1]] = val[c.a[2]]
           /\ c.op \in {"cpc", "cpca", "cpa"} => e.v[c.a[1]] = val[c.a[2]] /\ e.v[c.a[2]] = val[c.a[2]]
           /\ c.op = "cpa" => e.l = IF POCCA THEN [al EXCEPT ![c.a[1]] = al[c.a[2]]] ELSE al
           /\ c.op = "mva" => e.l = IF POCMA THEN [al EXCEPT ![c.a[1]] = al[c.a[2]]] ELSE al
           /\ c.op = "swp" => e.l = IF POCS THEN [al EXCEPT ![c.a[1]] = al[c.a[2]], ![c.a[2]] = al[c.a[1]]] ELSE al
           /\ c.op \notin Makers \cup {"cpa", "mva", "swp", "dt"} => e.l = al
=============================================================================
