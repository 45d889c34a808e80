----------------------------- MODULE BitSetTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded operations of 64-bit subsets (C18).             *)
(***************************************************************************)
EXTENDS BitSets, Cases

S(r) == FromTagMask(r.tag, r.mask)
IsSet(r, s) == r.tag = TagOf(s) /\ r.mask = MaskOf(s)
Some(x) == \E i \in DOMAIN x : x[i] = 1
(* does x touch free bits of s only? *)
InFree(s, x) == \A i \in DOMAIN x : x[i] = 1 => s[i] = Bits
(* s with the free bits set as in x *)
Put(s, x) == [i \in DOMAIN s |-> IF s[i] = Bits THEN x[i] ELSE TagOf(s)[i]]

Conforms == AtCase => LET r == Current IN
  IF ~Fits(r.a.tag, r.a.mask) \/ ~Fits(r.b.tag, r.b.mask) THEN r.o = "panic"
  ELSE LET s == S(r.a)
           t == S(r.b)
           ok == r.o = "ok"
       IN CASE r.op = "make" -> /\ ok
                                /\ \A i \in 1..4 : IsSet(r.sets[i], s)
                                /\ r.un = UnionOf(s) /\ r.sup = FreeOf(s)
            [] r.op = "tag" -> ok /\ IsSet(r.sets[1], FromTagMask(r.x, r.x))
            [] r.op = "has" -> ok /\ r.r = Has(s, r.x)
            [] r.op = "split" ->
                 IF Some(r.x) /\ InFree(s, r.x)
                 THEN ok /\ IsSet(r.sets[1], Part(s, r.x, 0)) /\ IsSet(r.sets[2], Part(s, r.x, 1))
                 ELSE r.o = "panic"
            [] r.op = "oru" -> ok /\ IsSet(r.sets[1], Hull(s, t))
            [] r.op = "or" -> IF FreeOf(s) = FreeOf(t) THEN ok /\ IsSet(r.sets[1], Hull(s, t))
                              ELSE r.o = "panic"
            [] r.op = "and" -> IF NonEmpty(Meet(s, t)) THEN ok /\ IsSet(r.sets[1], Meet(s, t))
                               ELSE r.o = "panic"
            [] r.op = "raw" -> /\ ok /\ r.r
                               /\ r.put = Put(s, r.x) /\ r.typed = r.put /\ r.back = r.x
            [] r.op = "ptr" -> ok /\ r.r /\ r.put = Put(s, r.x) /\ r.back = r.x
            [] r.op = "bool" -> /\ ok /\ r.r /\ r.back = r.val
                                /\ r.put = Put(s, [i \in 1..64 |-> IF i = 1 /\ r.val THEN 1 ELSE 0])
=============================================================================
