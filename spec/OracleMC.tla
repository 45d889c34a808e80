------------------------------ MODULE OracleMC ------------------------------
(***************************************************************************)
(* The oracle for numbers, checked against the integers of TLC: for all    *)
(* small numbers, in a small base, the digit algorithms of BigNat give     *)
(* what the integers give.                                                 *)
(***************************************************************************)
EXTENDS BigNat
CONSTANTS Hi, ShHi
Base4 == 4
Bits2 == 2
VARIABLES a, b, n
Init == a \in 0..Hi /\ b = 0 /\ n = 0
Next == b = 0 /\ n = 0 /\ a' = a /\ b' \in 0..Hi /\ n' \in 0..ShHi

N2(x) == FromInt(x)
RECURSIVE Val(_, _)
Val(d, i) == IF i > Len(d) THEN 0 ELSE d[i] + Base * Val(d, i + 1)
V(d) == Val(d, 1)
I(x) == IntOf(IF x < 0 THEN 1 ELSE 0, FromInt(IF x < 0 THEN -x ELSE x))
VI(x) == IF x.s = 1 THEN -V(x.d) ELSE V(x.d)
Ints == {a - b, b - a, a, -b}

Represent == IsNat(N2(a)) /\ V(N2(a)) = a
Naturals == LET x == N2(a)
                y == N2(b)
            IN /\ Add(x, y) = N2(a + b)
               /\ a >= b => Sub(x, y) = N2(a - b)
               /\ Mul(x, y) = N2(a * b)
               /\ MulInt(x, b) = N2(a * b)
               /\ Cmp(x, y) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
               /\ IsOdd(x) <=> a % 2 = 1
               /\ BitLen(x) = (CHOOSE k \in 0..20 : 2 ^ k > a /\ (k > 0 => 2 ^ (k - 1) <= a))
Shifts == LET x == N2(a) IN
          /\ Shl(x, n) = N2(a * 2 ^ n)
          /\ Shr(x, n) = N2(a \div 2 ^ n)
          /\ LowBits(x, n) <=> a % 2 ^ n # 0
          /\ BitAt(x, n) = (a \div 2 ^ n) % 2
Powers == (a \in 1..6 /\ n <= 8) => PowN(N2(a), n) = N2(a ^ n)
Decimals == FromDec(<<a \div 100, (a \div 10) % 10, a % 10>>) = N2(a)
IntegerOps == \A p \in Ints, q \in Ints :
  LET x == I(p)
      y == I(q)
  IN /\ IsInt(x) /\ VI(x) = p
     /\ IAdd(x, y) = I(p + q) /\ ISub(x, y) = I(p - q) /\ IMul(x, y) = I(p * q)
     /\ ICmp(x, y) = (IF p < q THEN -1 ELSE IF p > q THEN 1 ELSE 0)
     /\ IShl(x, n) = I(p * 2 ^ n)
     /\ IShr(x, n) = I(p \div 2 ^ n)       \* TLC's \div is the floor
(* bit i of an integer in infinite two's complement *)
B(p, i) == (p \div 2 ^ i) % 2
Width == 12
ByBits(z, f(_, _), p, q) == /\ \A i \in 0..Width : B(VI(z), i) = f(B(p, i), B(q, i))
                            /\ VI(z) \in (-(2 ^ Width))..(2 ^ Width - 1)
TwosComplement == \A p \in Ints, q \in Ints :
  LET x == I(p)
      y == I(q)
  IN /\ ByBits(IAnd(x, y), LAMBDA u, v : u * v, p, q)
     /\ ByBits(IOr(x, y), LAMBDA u, v : IF u + v = 0 THEN 0 ELSE 1, p, q)
     /\ ByBits(IXor(x, y), LAMBDA u, v : IF u = v THEN 0 ELSE 1, p, q)
     /\ VI(INot(x)) = -p - 1
=============================================================================
