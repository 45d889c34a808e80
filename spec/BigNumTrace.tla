---------------------------- MODULE BigNumTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded operations of BigUint (u...) and BigInt (i...)  *)
(* (C15).  The records are those of module BigTrace.                       *)
(***************************************************************************)
EXTENDS BigNat, Cases

Normal(v) == IsInt(v) /\ v.n = (BitLen(v.d) + 63) \div 64
Val(v) == [s |-> v.s, d |-> v.d]
Is(v, x) == Normal(v) /\ Val(v) = x
Nat0(d) == IntOf(0, d)
Huge(d) == BitLen(d) > 64
IntVal(d) == FoldRight(LAMBDA x, acc : acc * Base + x, d, 0)
Small(d) == Len(d) <= 2
Unit(d) == Len(d) <= 1 /\ (d = << >> \/ d[1] = 1)

PowIs(v, x, e) ==
  CASE e = << >> -> Is(v, Nat0(<<1>>))
    [] Unit(x.d) -> Is(v, x)
    [] OTHER -> Is(v, IPow(x, IntVal(e)))
DivIs(x, y, q, rem) ==
  /\ Normal(q) /\ Normal(rem)
  /\ IAdd(IMul(Val(q), y), Val(rem)) = x
  /\ Lt(rem.d, y.d)
  /\ rem.d = << >> \/ rem.s = x.s
(* q is the quotient rounded toward zero *)
QuotIs(x, y, q) ==
  LET rem == ISub(x, IMul(Val(q), y))
  IN Normal(q) /\ Lt(rem.d, y.d) /\ (rem.d = << >> \/ rem.s = x.s)

(* All ways to compare agree: cmp, partial_cmp, <, <=, >, >=, #, max, min. *)
Orders(v, c) == v = <<c, c, c < 0, c <= 0, c > 0, c >= 0, c # 0, c >= 0, c <= 0>>

(* The value of a 64-bit pattern as a signed number. *)
I64(k) == IF BitLen(k) = 64 THEN IntOf(1, Sub(Shl(<<1>>, 64), k)) ELSE Nat0(k)

Panics(r) ==
  CASE r.op \in {"udiv", "udivmod", "idiv", "idivmod"} -> r.b.d = << >>
    [] r.op = "ushl" -> r.a.d # << >> /\ Huge(r.b.d)
    [] r.op = "upow" -> ~Unit(r.a.d) /\ Huge(r.b.d)
    [] OTHER -> FALSE

Result(r) ==
  LET x == Val(r.a)
      y == Val(r.b)
  IN CASE r.op \in {"uadd", "iadd"} -> Is(r.r, IAdd(x, y))
       [] r.op = "usub" -> Is(r.r, IF Lt(x.d, y.d) THEN Nat0(<< >>) ELSE ISub(x, y))
       [] r.op = "isub" -> Is(r.r, ISub(x, y))
       [] r.op \in {"umul", "imul"} -> Is(r.r, IMul(x, y))
       [] r.op \in {"udiv", "idiv"} -> QuotIs(x, y, r.r)
       [] r.op \in {"udivmod", "idivmod"} -> DivIs(x, y, r.r[1], r.r[2])
       [] r.op = "ushl" -> Is(r.r, IF x.d = << >> THEN x ELSE IShl(x, IntVal(y.d)))
       [] r.op = "ushr" -> Is(r.r, IF Small(y.d) THEN IShr(x, IntVal(y.d)) ELSE Nat0(<< >>))
       [] r.op = "upow" -> PowIs(r.r, x, y.d)
       [] r.op = "upowu" -> PowIs(r.r, x, r.k)
       [] r.op \in {"ucmp", "icmp"} -> Orders(r.r, ICmp(x, y))
       [] r.op \in {"ueq", "ieq"} -> r.r = (x = y)
       [] r.op = "uone" -> Is(r.r, Nat0(<<1>>))
       [] r.op = "uisone" -> r.r = (x.d = <<1>>)
       [] r.op \in {"uisz", "iisz"} -> r.r = (x.d = << >>)
       [] r.op = "ubit" -> r.r = (IF IsOdd(x.d) THEN 1 ELSE 0)
       [] r.op \in {"ufrom", "ifrom"} -> Is(r.r, Nat0(r.k))
       [] r.op = "ifrom64" -> Is(r.r, I64(r.k))
       [] r.op \in {"unorm", "utoint", "ijs"} -> Is(r.r, x)
       [] r.op = "ineg" -> Is(r.r, Neg(x))
       [] r.op = "iabs" -> Is(r.r, Nat0(x.d))

Conforms == AtCase => LET r == Current IN
  IF Panics(r) THEN r.o = "panic" ELSE r.o = "ok" /\ r.same /\ Result(r)
=============================================================================
