----------------------------- MODULE StepsTrace -----------------------------
(***************************************************************************)
(* The documented complexities (C24).  Each event is one call, or several  *)
(* alike, on a container of n elements: st counts the basic blocks the     *)
(* program entered and cm the comparisons of elements, so neither depends  *)
(* on the machine.  The number of levels a call may pass through is the    *)
(* greatest height TreeBounds allows for n elements, never the height the  *)
(* code happened to have.  Every class has one constant, several times     *)
(* what the code takes, for all segment and node sizes and all container   *)
(* sizes: what is judged is how the cost grows.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS S, B      \* elements per segment, entries per index node
LOCAL INSTANCE TreeBounds

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 1 ELSE 1 + Lg(n \div 2)
Min(a, b) == IF a < b THEN a ELSE b
\* the greatest height a container of n elements can have
RECURSIVE HeightUpTo(_, _)
HeightUpTo(n, h) == IF FewestElements(h + 1, (S + 1) \div 2, (B + 1) \div 2) > n THEN h ELSE HeightUpTo(n, h + 1)
Height(n) == HeightUpTo(n, 0)

Path(n) == (Height(n) + 1) * (B + 4) + 8    \* root to segment, every entry of every node passed
Edit(n) == Path(n) + S                      \* and one segment shifted

\* Saturating: TLC's integers have 32 bits.
Big == 2000000000
Times(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Big \div b THEN Big ELSE a * b
Plus(a, b) == IF a > Big - b THEN Big ELSE a + b

\* steps allowed per unit, four or five times what the code takes
K(op) ==
    CASE op = "size" -> 45 [] op = "index_of" -> 25 [] op = "compare_it" -> 50 [] op = "deref" -> 65
      [] op = "get_allocator" -> 40 [] op = "swap" -> 80 [] op = "move" -> 380 [] op = "empty" -> 180
      [] op \in {"nth", "index", "at"} -> 5 [] op \in {"front", "back"} -> 4
      [] op \in {"begin", "end", "penultimate"} -> 7 [] op = "hop" -> 10
      [] op \in {"insert", "emplace", "push", "erase", "pop"} -> 25
      [] op = "walk" -> 190 [] op = "segwalk" -> 100 [] op = "jump" -> 12 [] op = "segjump" -> 9
      [] op \in {"insn", "insr", "resize", "splice", "assign", "copy", "make"} -> 11
      [] op \in {"err", "splicer", "splice1"} -> 16
      [] op = "equal" -> 190 [] op = "less" -> 230 [] op = "unique" -> 580
      [] op = "reverse" -> 100 [] op = "clear" -> 120
      [] op = "sort" -> 190 [] op = "merge" -> 12 [] op = "remove" -> 6
      [] OTHER -> 0

Constant == {"size", "index_of", "compare_it", "deref", "get_allocator", "swap", "move", "empty"}
Lookup == {"nth", "index", "at", "front", "back", "begin", "end", "penultimate", "hop"}
Single == {"insert", "emplace", "push", "erase", "pop"}
Linear == {"walk", "segwalk", "equal", "less", "unique", "reverse", "clear"}

Units(e) ==
    CASE e.op \in Constant -> 1
      [] e.op \in Lookup -> Path(e.n)
      [] e.op \in Single -> Edit(e.n)
      \* also m steps of one element or of one segment: amortized constant
      [] e.op \in Linear -> e.m + 11
      \* g jumps over d elements: each logarithmic in d, amortized
      [] e.op \in {"jump", "segjump"} -> Plus(Times(e.g, (Lg(e.d) + 1) * (B + 4)), Path(e.n))
      [] e.op = "sort" -> Times(e.n + 1, Lg(e.n))
      [] e.op = "merge" -> Plus(Times(3 * e.n, Lg(e.n)), Times(e.m, Edit(e.n)))
      [] e.op = "remove" -> Times(e.n + 1, Edit(e.n))
      \* every element transferred on its own path
      [] OTHER -> Times(e.m + 1, Edit(e.n))
Allowed(e) == Times(K(e.op), Units(e))

\* comparisons of elements
Compared(e) ==
    CASE e.op = "sort" -> Times(4, Times(e.n + 1, Lg(e.n)))
      [] e.op \in {"equal", "unique", "merge", "remove"} -> 3 * e.n + 8
      [] e.op = "less" -> 6 * e.n + 8
      [] OTHER -> 0

Within(e) == e.op # "endless" /\ e.st <= Allowed(e) /\ e.cm <= Compared(e)

Init == l = 1
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       IF Within(e) THEN TRUE
       ELSE PrintT("REJECT steps history 1 event " \o ToString(l) \o " op " \o e.op \o e.in \o " on " \o ToString(e.n)
                   \o " elements: " \o ToString(e.st) \o " steps of " \o ToString(Allowed(e)) \o ", " \o ToString(e.cm)
                   \o " comparisons of " \o ToString(Compared(e))) /\ FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
