------------------------------ MODULE Decimal ------------------------------
(***************************************************************************)
(* The meaning of number literals: which double is the nearest to an exact *)
(* decimal or binary number.  A double is a record [s, e, m] with its sign *)
(* bit, its biased exponent field and its 52-bit fraction as a natural of  *)
(* module BigNat.                                                          *)
(***************************************************************************)
EXTENDS BigNat

ExpInf == 2047
FracBits == 52
ExpOfOne == 1075                  \* the exponent field of 2^52, whose last fraction bit counts one
IsDouble(f) == f.s \in {0, 1} /\ f.e \in 0..ExpInf /\ IsNat(f.m) /\ BitLen(f.m) <= FracBits
IsNaN(f) == f.e = ExpInf /\ f.m # << >>
IsInf(f) == f.e = ExpInf /\ f.m = << >>
IsZeroF(f) == f.e = 0 /\ f.m = << >>
HiddenBit == Shl(<<1>>, FracBits)
(* a finite double is Sig(f) * 2^Exp2(f) *)
Sig(f) == IF f.e = 0 THEN f.m ELSE Add(f.m, HiddenBit)
Exp2(f) == (IF f.e = 0 THEN 1 ELSE f.e) - ExpOfOne

Five == <<5>>
(* Compares N * 10^t * 2^b, with a non-zero remainder below the last bit of N if `rem`, with M * 2^q *)
CmpScaled(n, t, b, m, q) ==
  LET lo == Min2(Min2(t, 0) + b, q)     \* power of two to remove from both sides
      x == Mul(n, IF t > 0 THEN PowN(Five, t) ELSE <<1>>)
      y == Mul(m, IF t < 0 THEN PowN(Five, -t) ELSE <<1>>)
      bx == t + b                       \* n*10^t*2^b = n*5^t*2^(t+b)
      d == bx - q
  IN IF d >= 0 THEN Cmp(Shl(x, d), y) ELSE Cmp(x, Shl(y, -d))

(* The number of decimal digits of a natural given by digits without leading zeros decides huge
   exponents: 10^(t+len-1) <= n*10^t < 10^(t+len). *)
DecLen(ds) == Len(ds)

(* Is f the double nearest to n * 10^t * 2^b (+ a little if rem), ties to even?  The sign is not
   looked at. *)
Nearest(n, t, b, rem, f) ==
  IF n = << >> THEN IsZeroF(f)
  ELSE IF IsNaN(f) THEN FALSE
  ELSE LET m == Sig(f)
           q == Exp2(f)
           even == ~IsOdd(f.m)
           \* lower midpoint: halfway to the previous double
           lo == IF f.e > 1 /\ f.m = << >>
                 THEN [m |-> Sub(Shl(m, 2), <<1>>), q |-> q - 2]
                 ELSE [m |-> IF m = << >> THEN << >> ELSE Sub(Shl(m, 1), <<1>>), q |-> q - 1]
           cl == IF m = << >> THEN 1 ELSE CmpScaled(n, t, b, lo.m, lo.q)
           cu == IF IsInf(f) THEN -1
                 ELSE CmpScaled(n, t, b, Add(Shl(m, 1), <<1>>), q - 1)
       IN /\ cl = 1 \/ (cl = 0 /\ (even \/ rem))
          /\ cu = -1 \/ (cu = 0 /\ even /\ ~rem)
(* An infinity is 2^1024 = Sig * 2^Exp2 with e = 2047, so its lower midpoint is the overflow
   threshold 2^1024 - 2^970, and the tie goes to it (its fraction is even). *)

DigitsTop(ds) == LET n == SelectInSeq(ds, LAMBDA d : d # 0) IN IF n = 0 THEN << >> ELSE SubSeq(ds, n, Len(ds))
RECURSIVE ToInt(_, _, _)
ToInt(ds, i, acc) == IF i > Len(ds) THEN acc ELSE ToInt(ds, i + 1, acc * 10 + ds[i])

(* f is the value of the literal of a number token *)
LiteralIs(tok, f) ==
  LET ds == DigitsTop(tok.ds)
      e == DigitsTop(tok.e)
      signOk == f.s = IF tok.neg THEN 1 ELSE 0
      \* the decimal exponent, or a bound of it that is as good
      eAbs == IF Len(e) > 8 THEN 100000000 ELSE ToInt(e, 1, 0)
      t == (IF tok.eneg THEN -eAbs ELSE eAbs) - tok.fe
      top == t + Len(ds)                 \* 10^(top-1) <= value < 10^top
  IN /\ signOk
     /\ CASE ds = << >> -> IsZeroF(f)
          [] top < -330 -> IsZeroF(f)
          [] top > 320 -> IsInf(f)
          [] OTHER -> Nearest(FromDec(ds), t, 0, FALSE, f)

BigLiteralIs(tok, x) == x = IntOf(IF tok.neg THEN 1 ELSE 0, FromDec(DigitsTop(tok.ds)))
=============================================================================
