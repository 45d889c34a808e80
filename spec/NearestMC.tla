------------------------------ MODULE NearestMC ------------------------------
(***************************************************************************)
(* The oracle for rounding, checked against its definition: for all small  *)
(* numbers n * 10^t * 2^b (with or without a remainder) and a toy float    *)
(* format, exactly one float is accepted as the nearest, and no other      *)
(* float is nearer; among two equally near ones it is the even one.        *)
(***************************************************************************)
EXTENDS Decimal, FiniteSets
CONSTANTS Hi, T, B
ToyInf == 7
ToyFrac == 2
ToyOne == 5
VARIABLES n, t, b, rem
Init == n \in 0..Hi /\ t = 0 /\ b = 0 /\ rem = FALSE
Next == t = 0 /\ b = 0 /\ ~rem /\ n' = n /\ t' \in (-T)..T /\ b' \in (-B)..B /\ rem' \in BOOLEAN

Floats == [s : {0}, e : 0..ToyInf, m : {FromInt(k) : k \in 0..(2 ^ ToyFrac - 1)}]
Numbers == {f \in Floats : ~IsNaN(f)}
RECURSIVE Val(_, _)
Val(d, i) == IF i > Len(d) THEN 0 ELSE d[i] + Base * Val(d, i + 1)
V(d) == Val(d, 1)
(* all values as multiples of 1/Unit *)
Unit == 10 ^ T * 2 ^ (B + 5)
Scaled == (IF t > 0 THEN n * 10 ^ t * Unit ELSE IF t = 0 THEN n * Unit ELSE n * (Unit \div (10 ^ (-t))))
Exact == IF b >= 0 THEN Scaled * 2 ^ b ELSE Scaled \div 2 ^ (-b)
(* infinity counts as the number that follows the greatest finite one *)
FVal(f) == LET q == Exp2(f) IN IF q >= 0 THEN V(Sig(f)) * 2 ^ q * Unit ELSE (V(Sig(f)) * Unit) \div 2 ^ (-q)
Dist(x, y) == IF x < y THEN y - x ELSE x - y
FV == [f \in Numbers |-> FVal(f)]
(* is f at least as near as g to 2 * Exact + 0 or 1? *)
Twice == 2 * Exact + (IF rem THEN 1 ELSE 0)
AsNear(f, g) == Dist(Twice, 2 * FV[f]) <= Dist(Twice, 2 * FV[g])
Best(f) == IF \E g \in Numbers : g # f /\ ~AsNear(f, g) THEN FALSE
           ELSE LET ties == {g \in Numbers : AsNear(g, f)} IN Cardinality(ties) = 1 \/ ~IsOdd(f.m)
Beyond == \A g \in Numbers : FV[g] <= Exact     \* everything above the greatest number is infinite
Zero0 == [s |-> 0, e |-> 0, m |-> << >>]
Inf0 == [s |-> 0, e |-> ToyInf, m |-> << >>]
Accepted == {f \in Floats : Nearest(FromInt(n), t, b, rem, f)}
Right == IF n = 0 THEN {Zero0} ELSE IF Beyond THEN {Inf0} ELSE {f \in Numbers : Best(f)}
NearestIsNearest == Accepted = Right /\ Cardinality(Right) = 1
=============================================================================
