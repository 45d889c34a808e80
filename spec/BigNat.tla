------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Exact natural and integer arithmetic for TLC, whose own integers have   *)
(* 32 bits.  A natural number is the sequence of its digits in base 2^12,  *)
(* the least significant first and without leading zeros: 0 is << >>.      *)
(* Nothing here is shared with the implementation, which uses base 2^64    *)
(* and other algorithms: this module is the oracle for its arithmetic.     *)
(* An integer is a record [s |-> 0 or 1 (negative), d |-> natural].        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Base == 4096
BaseBits == 12

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>   \* P2[i+1] = 2^i

Zero == << >>
IsNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(Base - 1)
            /\ Len(a) > 0 => a[Len(a)] # 0

RECURSIVE TopNZ(_, _)
TopNZ(a, n) == IF n = 0 THEN 0 ELSE IF a[n] # 0 THEN n ELSE TopNZ(a, n - 1)
Norm(a) == LET n == TopNZ(a, Len(a)) IN IF n = Len(a) THEN a ELSE SubSeq(a, 1, n)

RECURSIVE SmallDigits(_)
SmallDigits(n) == IF n = 0 THEN << >> ELSE <<n % Base>> \o SmallDigits(n \div Base)
FromInt(n) == SmallDigits(n)

D(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

(* Digits of a number given by columns that may exceed the base. *)
Carry(cols) ==
  LET r == FoldLeft(LAMBDA acc, v : LET t == v + acc.c
                                    IN [c |-> t \div Base, o |-> Append(acc.o, t % Base)],
                    [c |-> 0, o |-> << >>], cols)
  IN Norm(r.o \o SmallDigits(r.c))

Add(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a
             ELSE Carry([i \in 1..Max2(Len(a), Len(b)) |-> D(a, i) + D(b, i)])

(* a - b for a >= b; the arithmetic shift in `\div` floors, so it also borrows *)
Sub(a, b) == IF b = << >> THEN a
             ELSE Carry([i \in 1..Len(a) |-> a[i] - D(b, i)])

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
Lt(a, b) == Cmp(a, b) = -1
Le(a, b) == Cmp(a, b) # 1

RECURSIVE Col(_, _, _, _, _, _)
Col(a, b, k, i, hi, acc) == IF i > hi THEN acc
                            ELSE Col(a, b, k, i + 1, hi, acc + a[i] * b[k - i])
(* at most 100 digits in one factor, so that a column stays below 2^31 *)
MulShort(a, b) ==
  LET la == Len(a)
      lb == Len(b)
  IN Carry([k \in 1..(la + lb - 1) |->
              Col(a, b, k + 1, Max2(1, k + 1 - lb), Min2(la, k), 0)])
ShlDigits(a, n) == IF a = << >> THEN a ELSE [i \in 1..n |-> 0] \o a
RECURSIVE Mul(_, _)
Mul(a, b) ==
  IF a = << >> \/ b = << >> THEN << >>
  ELSE IF Len(a) > Len(b) THEN Mul(b, a)
  ELSE IF Len(a) <= 100 THEN MulShort(a, b)
  ELSE Add(MulShort(Norm(SubSeq(a, 1, 100)) \o << >>, b), ShlDigits(Mul(SubSeq(a, 101, Len(a)), b), 100))
MulInt(a, n) == IF n = 0 THEN << >> ELSE Carry([i \in 1..Len(a) |-> a[i] * n])  \* n < 2^18

RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN <<1>>
              ELSE LET h == PowN(a, n \div 2)
                       q == Mul(h, h)
                   IN IF n % 2 = 1 THEN Mul(q, a) ELSE q

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BitLen(a) == IF a = << >> THEN 0 ELSE BaseBits * (Len(a) - 1) + BitsOf(a[Len(a)])
BitAt(a, i) == (D(a, (i \div BaseBits) + 1) \div P2[(i % BaseBits) + 1]) % 2
IsOdd(a) == a # << >> /\ a[1] % 2 = 1

Shl(a, n) == IF a = << >> THEN a
             ELSE LET b == n % BaseBits
                      m == IF b = 0 THEN a ELSE Carry([i \in 1..Len(a) |-> a[i] * P2[b + 1]])
                  IN ShlDigits(m, n \div BaseBits)
Shr(a, n) == LET q == n \div BaseBits
                 b == n % BaseBits
             IN IF q >= Len(a) THEN << >>
                ELSE Norm([i \in 1..(Len(a) - q) |->
                       (a[i + q] \div P2[b + 1]) + (D(a, i + q + 1) % P2[b + 1]) * P2[BaseBits - b + 1]])
(* is any of the low n bits set? *)
LowBits(a, n) ==
  LET q == n \div BaseBits
      b == n % BaseBits
  IN \/ \E i \in 1..Min2(q, Len(a)) : a[i] # 0
     \/ D(a, q + 1) % P2[b + 1] # 0

(* Decimal digits, the most significant first, to a number. *)
FromDec(ds) ==
  LET n == Len(ds)
      h == n % 4
      head == FoldLeft(LAMBDA acc, d : acc * 10 + d, 0, SubSeq(ds, 1, h))
      g(i) == LET k == h + 4 * (i - 1) IN ((ds[k + 1] * 10 + ds[k + 2]) * 10 + ds[k + 3]) * 10 + ds[k + 4]
  IN FoldLeft(LAMBDA acc, i : Add(MulInt(acc, 10000), FromInt(g(i))), FromInt(head),
              [i \in 1..(n \div 4) |-> i])

-----------------------------------------------------------------------------
(* Integers *)
IntOf(s, d) == [s |-> IF d = << >> THEN 0 ELSE s, d |-> d]
IsInt(x) == IsNat(x.d) /\ x.s \in {0, 1} /\ (x.d = << >> => x.s = 0)
Neg(x) == IntOf(1 - x.s, x.d)
IAdd(x, y) == IF x.s = y.s THEN IntOf(x.s, Add(x.d, y.d))
              ELSE CASE Cmp(x.d, y.d) = 1 -> IntOf(x.s, Sub(x.d, y.d))
                     [] Cmp(x.d, y.d) = -1 -> IntOf(y.s, Sub(y.d, x.d))
                     [] OTHER -> IntOf(0, << >>)
ISub(x, y) == IAdd(x, Neg(y))
IMul(x, y) == IntOf(IF x.s = y.s THEN 0 ELSE 1, Mul(x.d, y.d))
ICmp(x, y) == IF x.s # y.s THEN IF x.s = 1 THEN -1 ELSE 1
              ELSE IF x.s = 0 THEN Cmp(x.d, y.d) ELSE Cmp(y.d, x.d)
IPow(x, n) == IntOf(IF n % 2 = 1 THEN x.s ELSE 0, PowN(x.d, n))
IShl(x, n) == IntOf(x.s, Shl(x.d, n))
(* floor(x / 2^n) *)
IShr(x, n) == IF x.s = 0 THEN IntOf(0, Shr(x.d, n))
              ELSE IntOf(1, IF LowBits(x.d, n) THEN Add(Shr(x.d, n), <<1>>) ELSE Shr(x.d, n))

(* n digits of the two's complement form of x, and back *)
Tc(x, n) ==
  IF x.s = 0 THEN [i \in 1..n |-> D(x.d, i)]
  ELSE LET y == Sub(x.d, <<1>>) IN [i \in 1..n |-> (Base - 1) - D(y, i)]
FromTc(t) ==
  IF t[Len(t)] < Base \div 2 THEN IntOf(0, Norm(t))
  ELSE IntOf(1, Add(Norm([i \in 1..Len(t) |-> (Base - 1) - t[i]]), <<1>>))
Bitwise2(op(_, _), x, y) ==
  LET n == Max2(Len(x.d), Len(y.d)) + 1
      a == Tc(x, n)
      b == Tc(y, n)
  IN FromTc([i \in 1..n |-> op(a[i], b[i])])
IAnd(x, y) == Bitwise2(LAMBDA p, q : p & q, x, y)
IOr(x, y) == Bitwise2(LAMBDA p, q : p | q, x, y)
IXor(x, y) == Bitwise2(LAMBDA p, q : p ^^ q, x, y)
INot(x) == ISub(Neg(x), IntOf(0, <<1>>))
=============================================================================
