---------------------------- MODULE SparseTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded operations on huge integers with few changes of *)
(* bits (C12, C13, C14; u..., i...: C15).                                  *)
(*   op  operation;  a, b  operands in the form of Sparse                  *)
(*   k   a count (of a shift: negative for the other direction)            *)
(*   r   result: [t |-> form (cut when too long), n |-> digits of 64 bits, *)
(*       s |-> its sign];  same  were the operands unchanged?              *)
(***************************************************************************)
EXTENDS Sparse, Cases

Right(v, x) == v.t = x /\ v.n = Limbs(x) /\ v.s = (IF Negative(x) THEN 1 ELSE 0)
IsDiv(v, x, y) == Right(v[1], v[1].t) /\ Right(v[2], v[2].t) /\ Is(v[1].t) /\ Is(v[2].t) /\ Divides(x, y, v[1].t, v[2].t)
(* the quotient alone: the rest is what it must be *)
IsQuot(v, x, y) == Is(v.t) /\ Right(v, v.t) /\ Divides(x, y, v.t, Sub(x, Mul(v.t, y)))
Order(v, c) == v.c = <<c, c>> /\ v.t = <<c < 0, c <= 0, c > 0, c >= 0, c # 0, c >= 0, c <= 0>>

Result(r) ==
  LET x == r.a
      y == r.b
      v == r.r
  IN CASE r.op \in {"add", "uadd", "iadd"} -> Right(v, Add(x, y))
       [] r.op \in {"sub", "isub"} -> Right(v, Sub(x, y))
       [] r.op = "usub" -> Right(v, IF Cmp(x, y) < 0 THEN Zero ELSE Sub(x, y))
       [] r.op \in {"mul", "umul", "imul"} -> Right(v, Mul(x, y))
       [] r.op \in {"neg", "ineg"} -> Right(v, Neg(x))
       [] r.op = "iabs" -> Right(v, Abs(x))
       [] r.op \in {"same", "usame"} -> Right(v, x)
       [] r.op = "cmp" -> v = Cmp(x, y)
       [] r.op \in {"ucmp", "icmp"} -> Order(v, Cmp(x, y))
       [] r.op \in {"eq", "ueq", "ieq"} -> v = (x = y)
       [] r.op \in {"bit", "ubit"} -> v = (IF Odd(x) THEN 1 ELSE 0)
       [] r.op \in {"pow", "powu", "upow", "upowu"} -> Right(v, Pow(x, r.k))
       [] r.op = "not" -> Right(v, Not(x))
       [] r.op = "and" -> Right(v, And(x, y))
       [] r.op = "or" -> Right(v, Or(x, y))
       [] r.op = "xor" -> Right(v, Xor(x, y))
       [] r.op \in {"shl", "shlu", "ushl"} -> Right(v, IF r.k < 0 THEN Shr(x, -r.k) ELSE Shl(x, r.k))
       [] r.op \in {"shr", "shru", "ushr"} -> Right(v, IF r.k < 0 THEN Shl(x, -r.k) ELSE Shr(x, r.k))
       [] r.op \in {"div", "udivmod", "idivmod"} -> IsDiv(v, x, y)
       [] r.op \in {"udiv", "idiv"} -> IsQuot(v, x, y)

Conforms == AtCase => LET r == Current IN Is(r.a) /\ Is(r.b) /\ r.o = "ok" /\ r.same /\ Result(r)
=============================================================================
