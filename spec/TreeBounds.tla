----------------------------- MODULE TreeBounds -----------------------------
(***************************************************************************)
(* What being balanced and at least half full says about heights and       *)
(* counts (C07).                                                           *)
(***************************************************************************)
LOCAL INSTANCE Integers

\* saturating power
RECURSIVE PowSat(_, _)
PowSat(b, k) ==
    IF k = 0 THEN 1 ELSE IF b > 1 /\ k > 24 THEN 2000000000 ELSE
    LET r == PowSat(b, k - 1) IN IF r > 2000000000 \div b THEN 2000000000 ELSE r * b
\* fewest elements and most segments of a tree of height h
FewestElements(h, segMin, baseMin) == IF h = 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE
    LET p == PowSat(baseMin, h - 2) IN IF p > 1000000000 \div segMin THEN 2000000000 ELSE 2 * p * segMin
MostSegments(h, baseMax) == IF h <= 1 THEN h ELSE PowSat(baseMax, h - 1)

\* <<fewest, most>> index nodes above lo..hi children, k levels of them
RECURSIVE NodeCountBounds(_, _, _, _, _)
NodeCountBounds(lo, hi, k, baseMin, baseMax) ==
    IF k = 0 THEN <<0, 0>>
    ELSE LET l1 == IF k = 1 THEN 1 ELSE (lo + baseMax - 1) \div baseMax
             h1 == IF k = 1 THEN 1 ELSE hi \div baseMin
             r == NodeCountBounds(l1, h1, k - 1, baseMin, baseMax)
         IN <<l1 + r[1], h1 + r[2]>>
=============================================================================
