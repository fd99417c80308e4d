------------------------------- MODULE SeqOps -------------------------------
(***************************************************************************)
(* Pure operators on ideal sequences: the vocabulary in which every        *)
(* operation of boost::segmented_tree::seq is specified.  Positions are    *)
(* 0-based as in the interface; TLA+ sequences are 1-based.                *)
(* An element is an integer  key * KeyDiv + tag : comparisons of the       *)
(* container look at the key, so the tag shows stability and identity.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT KeyDiv

\* Values a moved-from or value-initialised element may show.
MOVED == -7
DefaultVal == 0

Key(x) == IF KeyDiv = 1 THEN x ELSE IF x >= 0 THEN x \div KeyDiv ELSE -1

\* The value that is equal to nothing, itself included, and ordered with nothing
\* (a floating-point NaN; only built-in types have one).
NaN == 1073741831
IsNaN(x) == KeyDiv = 1 /\ x = NaN
KeyEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Key(a) = Key(b)
KeyLt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Key(a) < Key(b)

Rep(n, x) == [i \in 1..n |-> x]
InsertSeq(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))
EraseRange(s, p, q) == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
Slice(s, p, q) == SubSeq(s, p + 1, q)
Resized(s, n, x) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Rep(n - Len(s), x)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Iota(n) == [i \in 1..n |-> i - 1]
Range(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* The orderings the harness can pass: 0 natural, 1 descending, 2 key modulo 3.
Less(cmp, a, b) ==
    CASE cmp = 0 -> KeyLt(a, b)
      [] cmp = 1 -> Key(b) < Key(a)
      [] OTHER   -> Key(a) % 3 < Key(b) % 3

IsSorted(s, cmp) == \A i \in 1..(Len(s) - 1) : ~Less(cmp, s[i + 1], s[i])

StableSort(s, cmp) ==
    LET ord == SortSeq([i \in 1..Len(s) |-> i],
                       LAMBDA i, j : Less(cmp, s[i], s[j]) \/ (~Less(cmp, s[j], s[i]) /\ i < j))
    IN [i \in 1..Len(s) |-> s[ord[i]]]

Merged(a, b, cmp) == StableSort(a \o b, cmp)

\* unique: 0 equal keys, 1 equal key/2, 2 successor (not symmetric), 3 distance <= 1
Related(mode, a, b) ==
    CASE mode = 0 -> KeyEq(a, b)
      [] mode = 1 -> Key(a) \div 2 = Key(b) \div 2
      [] mode = 2 -> Key(a) + 1 = Key(b)
      [] OTHER    -> Key(a) - Key(b) <= 1 /\ Key(b) - Key(a) <= 1

RECURSIVE UniqueFrom(_, _, _, _)
UniqueFrom(s, i, kept, mode) ==
    IF i > Len(s) THEN kept
    ELSE IF kept # <<>> /\ Related(mode, kept[Len(kept)], s[i])
         THEN UniqueFrom(s, i + 1, kept, mode)
         ELSE UniqueFrom(s, i + 1, Append(kept, s[i]), mode)
Unique(s, mode) == UniqueFrom(s, 1, <<>>, mode)

RemoveKey(s, v) == SelectSeq(s, LAMBDA x : ~KeyEq(x, v))
RemoveMod(s, m, k) == SelectSeq(s, LAMBDA x : Key(x) % m # k)

KeysEqual(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : KeyEq(a[i], b[i])
\* Lexicographic order: the first pair of elements of which one is less decides,
\* else the lengths.
LexLess(a, b) ==
    \E i \in 1..(Len(a) + 1) :
        /\ \A j \in 1..(i - 1) : j <= Len(b) /\ ~KeyLt(a[j], b[j]) /\ ~KeyLt(b[j], a[j])
        /\ i <= Len(b)
        /\ (i > Len(a) \/ KeyLt(a[i], b[i]))

B(x) == IF x THEN 1 ELSE 0
CompareRow(a, b) ==
    << B(KeysEqual(a, b)), B(~KeysEqual(a, b)), B(LexLess(a, b)),
       B(~LexLess(b, a)), B(LexLess(b, a)), B(~LexLess(a, b)) >>
\* Where elements are not ordered, "less or equal" may also be read as the
\* documentation words it: less, or equal.
CompareOK(r, a, b) ==
    \/ r = CompareRow(a, b)
    \/ LET eq == KeysEqual(a, b) lt == LexLess(a, b) gt == LexLess(b, a) IN
       /\ ~eq /\ ~lt /\ ~gt
       /\ Len(r) = 6 /\ SubSeq(r, 1, 3) = <<0, 1, 0>> /\ r[5] = 0 /\ r[4] \in {0, 1} /\ r[6] \in {0, 1}

\* Maximal runs of consecutive integers, as the harness writes long rows.
RECURSIVE Expand(_)
Expand(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..r[1][2] |-> r[1][1] + i - 1] \o Expand(Tail(r))

\* Multiset inclusion of s in the values of t (as bags).
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SubBag(s, t) == \A x \in Range(s) : Count(s, x) <= Count(t, x)
=============================================================================
