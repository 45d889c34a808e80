------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded operations of the bigints (C12, C13, C14).      *)
(*   op  operation;  a, b  operands;  k  machine integer (digits)          *)
(*   r  result;  same  were the operands unchanged?                        *)
(* A bigint is recorded as [s, d, n]: sign, value and the number of its    *)
(* base 2^64 digits, from which its normal form is judged.                 *)
(***************************************************************************)
EXTENDS BigNat, Cases

(* A bigint in normal form: no leading zero digits and no negative zero. *)
Normal(v) == IsInt(v) /\ v.n = (BitLen(v.d) + 63) \div 64
Val(v) == [s |-> v.s, d |-> v.d]
Is(v, x) == Normal(v) /\ Val(v) = x

Huge(d) == BitLen(d) > 64              \* does not fit in 64 bits
IntVal(d) == FoldRight(LAMBDA x, acc : acc * Base + x, d, 0)   \* of at most two digits
Small(d) == Len(d) <= 2

Unit(d) == Len(d) <= 1 /\ (d = << >> \/ d[1] = 1)           \* 0 or 1

(* x^e for a natural e given by digits, if the result fits *)
PowIs(v, x, e) ==
  CASE e = << >> -> Is(v, IntOf(0, <<1>>))
    [] x.d = << >> -> Is(v, IntOf(0, << >>))
    [] x.d = <<1>> -> Is(v, IntOf(IF IsOdd(e) THEN x.s ELSE 0, <<1>>))
    [] OTHER -> Is(v, IPow(x, IntVal(e)))
PowPanics(x, e) == e.s = 1 \/ (~Unit(x.d) /\ Huge(e.d))

(* floor(x / 2^k) and x * 2^k, where k is a natural given by digits *)
ShrIs(v, x, k) == Is(v, IF Small(k) THEN IShr(x, IntVal(k)) ELSE IF x.s = 0 THEN IntOf(0, << >>) ELSE IntOf(1, <<1>>))
ShlIs(v, x, k) == Is(v, IF x.d = << >> THEN x ELSE IShl(x, IntVal(k)))
ShlPanics(x, k) == x.d # << >> /\ Huge(k)

DivIs(x, y, q, rem) ==
  /\ Normal(q) /\ Normal(rem)
  /\ IAdd(IMul(Val(q), y), Val(rem)) = x
  /\ Lt(rem.d, y.d)
  /\ rem.d = << >> \/ rem.s = x.s

(* Two wrong remainders are pinned by the test suite of the implementation.  They are recorded as
   findings: exactly these wrong values are told apart from others. *)
SmallDividend(x, y, q, rem) ==
  /\ Lt(x.d, y.d)
  /\ Is(q, IntOf(0, << >>))
  /\ Is(rem, IntOf(IF x.s = y.s THEN 0 ELSE 1, y.d))
NegativeDivisor(x, y, q, rem) ==       \* the remainder has the sign of the quotient
  /\ y.s = 1 /\ ~Lt(x.d, y.d)
  /\ rem.s = 1 - x.s
  /\ Normal(rem) /\ DivIs(x, y, q, [rem EXCEPT !.s = x.s])
Known(r) ==
  IF r.op # "div" \/ r.o # "ok" THEN "none"
  ELSE LET x == Val(r.a)
           y == Val(r.b)
       IN CASE DivIs(x, y, r.r[1], r.r[2]) -> "none"
            [] SmallDividend(x, y, r.r[1], r.r[2]) -> "div-small-dividend"
            [] NegativeDivisor(x, y, r.r[1], r.r[2]) -> "div-negative-divisor"
            [] OTHER -> "none"

Panics(r) ==
  CASE r.op = "pow" -> PowPanics(r.a, r.b)
    [] r.op = "shl" -> r.b.s = 0 /\ ShlPanics(r.a, r.b.d)
    [] r.op = "shr" -> r.b.s = 1 /\ ShlPanics(r.a, r.b.d)
    [] r.op = "div" -> r.b.d = << >>
    [] OTHER -> FALSE

Result(r) ==
  LET x == Val(r.a)
      y == Val(r.b)
  IN CASE r.op = "zero" -> Is(r.r, IntOf(0, << >>))
       [] r.op = "from+" -> Is(r.r, IntOf(0, r.k))
       [] r.op = "from-" -> Is(r.r, IntOf(1, r.k))
       [] r.op = "add" -> Is(r.r, IAdd(x, y))
       [] r.op = "sub" -> Is(r.r, ISub(x, y))
       [] r.op = "mul" -> Is(r.r, IMul(x, y))
       [] r.op = "neg" -> Is(r.r, Neg(x))
       [] r.op = "not" -> Is(r.r, INot(x))
       [] r.op = "and" -> Is(r.r, IAnd(x, y))
       [] r.op = "or" -> Is(r.r, IOr(x, y))
       [] r.op = "xor" -> Is(r.r, IXor(x, y))
       [] r.op = "cmp" -> r.r = ICmp(x, y)
       [] r.op = "eq" -> r.r = (x = y)
       [] r.op = "isz" -> r.r = (x.d = << >>)
       [] r.op = "bit" -> r.r = (IF IsOdd(x.d) THEN 1 ELSE 0)
       [] r.op = "pow" -> PowIs(r.r, x, y.d)
       [] r.op = "powu" -> PowIs(r.r, x, r.k)
       [] r.op = "shl" -> IF y.s = 0 THEN ShlIs(r.r, x, y.d) ELSE ShrIs(r.r, x, y.d)
       [] r.op = "shr" -> IF y.s = 0 THEN ShrIs(r.r, x, y.d) ELSE ShlIs(r.r, x, y.d)
       [] r.op = "shlu" -> ShlIs(r.r, x, r.k)
       [] r.op = "shru" -> ShrIs(r.r, x, r.k)
       [] r.op = "div" -> DivIs(x, y, r.r[1], r.r[2])

Conforms == AtCase => LET r == Current IN
  IF Panics(r) THEN r.o = "panic"
  ELSE /\ r.o = "ok"
       /\ r.same
       /\ LET kn == Known(r) IN
          IF kn # "none" THEN PrintT("KNOWN " \o kn \o " " \o ToString(<<r.a, r.b, r.r>>))
          ELSE Result(r)
=============================================================================
