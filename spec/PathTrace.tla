------------------------------ MODULE PathTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded path operations (C19).                          *)
(***************************************************************************)
EXTENDS Path, Cases

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ CASE r.op = "norm" -> r.r = Normal(r.a) /\ r.again = r.r
       [] r.op = "concat" -> r.r = Concat(r.a, r.b)
       [] r.op = "split" -> r.r = DirOf(r.a) /\ r.f = FileOf(r.a)
=============================================================================
