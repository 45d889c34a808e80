----------------------------- MODULE FloatTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded conversions of big floats (C16).                *)
(*   n, x, neg0, rem0  significand, exponent, sign and remainder of the    *)
(*      float; p = 0: binary, converted to the double f;                   *)
(*      p > 0: decimal, converted to the binary m * 2^e with p bits, and,  *)
(*      if there is f, from there to a double                              *)
(* A remainder stands for something smaller than any digit of n.           *)
(***************************************************************************)
EXTENDS Decimal, Cases

SignIs(f, neg) == f.s = IF neg THEN 1 ELSE 0

(* the double nearest to n * 2^x (+ remainder) *)
BinToDouble(n, x, neg, rem, f) ==
  LET top == BitLen(n) + x            \* 2^(top-1) <= value < 2^top
  IN /\ IsDouble(f) /\ SignIs(f, neg)
     /\ CASE n = << >> -> IsZeroF(f)
          [] top > 1100 -> IsInf(f)
          [] top < -1100 -> IsZeroF(f)
          [] OTHER -> Nearest(n, 0, x, rem, f)

(* m * 2^e <= n * 10^x < (m + 1) * 2^e with at least p bits in m *)
DecToBin(n, x, rem, p, m, e, outRem) ==
  IF n = << >> THEN m = << >>
  ELSE LET lo == CmpScaled(n, x, 0, m, e)
           hi == CmpScaled(n, x, 0, Add(m, <<1>>), e)
       IN /\ BitLen(m) >= p
          /\ lo >= 0
          /\ hi = -1
          /\ outRem = (rem \/ lo = 1)

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ IF r.p = 0 THEN BinToDouble(r.n, r.x, r.neg0, r.rem0, r.f)
     ELSE /\ r.m.s = 0 /\ IsNat(r.m.d) /\ r.m.n = (BitLen(r.m.d) + 63) \div 64
          /\ r.neg = r.neg0
          /\ DecToBin(r.n, r.x, r.rem0, r.p, r.m.d, r.e, r.rem)
          /\ "f" \in DOMAIN r =>
               /\ IsDouble(r.f) /\ SignIs(r.f, r.neg0)
               /\ IF r.n = << >> THEN IsZeroF(r.f)
                  ELSE LET top == BitLen(r.m.d) + r.e IN
                       CASE top > 1100 -> IsInf(r.f)
                         [] top < -1100 -> IsZeroF(r.f)
                         [] OTHER -> Nearest(r.n, r.x, 0, r.rem0, r.f)
=============================================================================
