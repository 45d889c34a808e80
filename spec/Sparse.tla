------------------------------- MODULE Sparse -------------------------------
(***************************************************************************)
(* Exact arithmetic on integers of any size whose binary form has few      *)
(* changes (C12, C13, C14, C15).  An integer, in infinite two's            *)
(* complement, is the ascending sequence of the positions at which its bit *)
(* differs from the bit below (below position 0 are zeros):                *)
(*   0 = << >>,  1 = <<0,1>>,  6 = <<1,3>>,  -1 = <<0>>,  -4 = <<2>>.      *)
(* So 2^4000000 is <<4000000,4000001>>, and each integer has one form.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Is(t) == \A i \in 1..Len(t) : t[i] >= 0 /\ (i > 1 => t[i - 1] < t[i])
Negative(t) == Len(t) % 2 = 1
Zero == << >>
One == <<0, 1>>

(* The bits from t[1] to t[2] - 1 are 2^t[2] - 2^t[1], and so on: an integer is a sum of powers of two with
   coefficients, <<position, coefficient>>. *)
Terms(t) == [i \in 1..Len(t) |-> <<t[i], IF i % 2 = 1 THEN -1 ELSE 1>>]
Scaled(ts, c) == [i \in 1..Len(ts) |-> <<ts[i][1], c * ts[i][2]>>]

(* The form of a sum: from the lowest position up, with a carry.  A carry of 0 or -1 goes on for ever as zeros or
   as ones. *)
Steady(carry) == carry \in {0, -1}
BitOf(carry) == carry % 2
RECURSIVE Sweep(_, _, _, _, _, _)
Sweep(ts, i, at, carry, bit, out) ==
  LET Toggled(b) == IF b # bit THEN Append(out, at) ELSE out
      b == BitOf(carry)
  IN IF i > Len(ts) /\ Steady(carry) THEN Toggled(b)
     ELSE IF i <= Len(ts) /\ ts[i][1] = at THEN Sweep(ts, i + 1, at, carry + ts[i][2], bit, out)
     ELSE IF Steady(carry) THEN Sweep(ts, i, ts[i][1], carry, b, Toggled(b))
     ELSE Sweep(ts, i, at + 1, carry \div 2, b, Toggled(b))
FromTerms(ts) == Sweep(SortSeq(ts, LAMBDA x, y : x[1] < y[1]), 1, 0, 0, 0, << >>)

Neg(x) == FromTerms(Scaled(Terms(x), -1))
Abs(x) == IF Negative(x) THEN Neg(x) ELSE x
Add(x, y) == FromTerms(Terms(x) \o Terms(y))
Sub(x, y) == FromTerms(Terms(x) \o Scaled(Terms(y), -1))
Shifted(ts, k) == [i \in 1..Len(ts) |-> <<ts[i][1] + k, ts[i][2]>>]
Mul(x, y) == FromTerms(FoldLeft(LAMBDA a, t : a \o Scaled(Shifted(Terms(x), t[1]), t[2]), << >>, Terms(y)))
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN One ELSE IF k % 2 = 1 THEN Mul(x, Pow(x, k - 1)) ELSE LET h == Pow(x, k \div 2) IN Mul(h, h)

Shl(x, k) == [i \in 1..Len(x) |-> x[i] + k]
(* toward minus infinity *)
Shr(x, k) ==
  LET low == SelectSeq(x, LAMBDA p : p <= k)
      high == SelectSeq(x, LAMBDA p : p > k)
  IN (IF Len(low) % 2 = 1 THEN <<0>> ELSE << >>) \o [i \in 1..Len(high) |-> high[i] - k]

Sign(x) == IF x = Zero THEN 0 ELSE IF Negative(x) THEN -1 ELSE 1
Cmp(x, y) == Sign(Sub(x, y))
Odd(x) == x # << >> /\ x[1] = 0

(* --- bits --- *)
Not(x) == IF Odd(x) THEN Tail(x) ELSE <<0>> \o x
RECURSIVE Merge(_, _, _, _, _, _, _)
(* table: the result of 0 0, 0 1, 1 0, 1 1 *)
Merge(x, y, bx, by, b, out, table) ==
  IF x = << >> /\ y = << >> THEN out
  ELSE LET at == IF x = << >> THEN y[1] ELSE IF y = << >> THEN x[1] ELSE IF x[1] < y[1] THEN x[1] ELSE y[1]
           inx == x # << >> /\ x[1] = at
           iny == y # << >> /\ y[1] = at
           cx == IF inx THEN 1 - bx ELSE bx
           cy == IF iny THEN 1 - by ELSE by
           c == table[2 * cx + cy + 1]
       IN Merge(IF inx THEN Tail(x) ELSE x, IF iny THEN Tail(y) ELSE y, cx, cy, c,
                IF c # b THEN Append(out, at) ELSE out, table)
And(x, y) == Merge(x, y, 0, 0, 0, << >>, <<0, 0, 0, 1>>)
Or(x, y) == Merge(x, y, 0, 0, 0, << >>, <<0, 1, 1, 1>>)
Xor(x, y) == Merge(x, y, 0, 0, 0, << >>, <<0, 1, 1, 0>>)

(* --- sizes --- *)
BitLen(x) == LET a == Abs(x) IN IF a = << >> THEN 0 ELSE a[Len(a)]
Limbs(x) == (BitLen(x) + 63) \div 64

(* q is x / y rounded toward zero, and r the rest *)
Divides(x, y, q, r) == /\ Add(Mul(q, y), r) = x
                       /\ Cmp(Abs(r), Abs(y)) < 0
                       /\ r = Zero \/ Negative(r) = Negative(x)
=============================================================================
