------------------------------ MODULE SparseMC ------------------------------
(***************************************************************************)
(* The arithmetic of Sparse is that of the integers: checked for all pairs *)
(* of integers whose bits change below position Top.                       *)
(***************************************************************************)
EXTENDS Sparse, FiniteSets, TLC
CONSTANT Top

VARIABLES x, y
Forms == {SetToSortSeq(s, <) : s \in SUBSET (0..(Top - 1))}
Init == x \in Forms /\ y = Zero
Next == y = Zero /\ y' \in Forms /\ x' = x
Spec == Init /\ [][Next]_<<x, y>>

RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Val(t) == FoldLeft(LAMBDA a, u : a + u[2] * P2(u[1]), 0, Terms(t))
(* bit k by its definition *)
Bit(v, k) == (v \div P2(k)) % 2
V == Val(x)
W == Val(y)

FormRight == /\ Is(x)
             /\ \A k \in 0..(Top + 1) : Bit(V, k) = Cardinality({i \in 1..Len(x) : x[i] <= k}) % 2
             /\ (V < 0) = Negative(x)
             /\ FromTerms(Terms(x)) = x
             /\ (V = W) = (x = y)
AddRight == Val(Add(x, y)) = V + W /\ Val(Sub(x, y)) = V - W /\ Is(Add(x, y)) /\ Is(Sub(x, y))
MulRight == Val(Mul(x, y)) = V * W /\ Is(Mul(x, y)) /\ Val(Mul(x, x)) = V * V
OneRight == /\ Val(Neg(x)) = -V /\ Is(Neg(x)) /\ Val(Not(x)) = -V - 1 /\ Is(Not(x))
            /\ Val(Abs(x)) = (IF V < 0 THEN -V ELSE V)
            /\ Odd(x) = (V % 2 = 1)
            /\ Val(Pow(x, 0)) = 1 /\ Val(Pow(x, 1)) = V /\ Val(Pow(x, 3)) = V * V * V
ShiftRight == \A k \in 0..(Top + 1) : /\ Val(Shl(x, k)) = V * P2(k) /\ Is(Shl(x, k))
                                      /\ Val(Shr(x, k)) = V \div P2(k) /\ Is(Shr(x, k))
CmpRight == Cmp(x, y) = (IF V < W THEN -1 ELSE IF V > W THEN 1 ELSE 0)
BitsRight == LET a == And(x, y)  o == Or(x, y)  e == Xor(x, y) IN
  /\ Is(a) /\ Is(o) /\ Is(e)
  /\ \A k \in 0..(Top + 1) : /\ Bit(Val(a), k) = Bit(V, k) * Bit(W, k)
                             /\ Bit(Val(o), k) = 1 - (1 - Bit(V, k)) * (1 - Bit(W, k))
                             /\ Bit(Val(e), k) = (Bit(V, k) + Bit(W, k)) % 2
SizeRight == LET n == BitLen(x)  a == IF V < 0 THEN -V ELSE V IN a < P2(n) /\ (n > 0 => a >= P2(n - 1))
(* of all small quotients, exactly the rounded one *)
DivRight == W # 0 =>
  LET av == IF V < 0 THEN -V ELSE V
      aw == IF W < 0 THEN -W ELSE W
      q == IF (V < 0) = (W < 0) THEN av \div aw ELSE -(av \div aw)
      Of(v) == FromTerms(<<<<0, v>>>>)
  IN \A d \in -1..1 : Divides(x, y, Of(q + d), Of(V - (q + d) * W)) = (d = 0)
=============================================================================
