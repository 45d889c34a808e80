------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Parts of a block of memory (C21).  A part is [at, s, a]: offset from    *)
(* the start of the block, size, alignment.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ends(p) == p.at + p.s
Apart(p, q) == p.s = 0 \/ q.s = 0 \/ Ends(p) <= q.at \/ Ends(q) <= p.at
Inside(p, size) == p.at >= 0 /\ Ends(p) <= size
Elements(x, n) == [at |-> x.at, s |-> n * x.s, a |-> x.a]

(* counter c, header h, n elements, the first of which is x, in a block of a size and an alignment *)
GoodLayout(c, h, x, n, size, align) ==
  LET e == Elements(x, n) IN
  /\ Inside(c, size) /\ Inside(h, size) /\ Inside(e, size)
  /\ Apart(c, h) /\ Apart(c, e) /\ Apart(h, e)
  /\ \A p \in {c, h, x} : p.at % p.a = 0 /\ align % p.a = 0
=============================================================================
