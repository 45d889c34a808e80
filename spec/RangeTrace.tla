----------------------------- MODULE RangeTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded merges and lookups of range maps (C17).         *)
(*   maps  the merged maps: entries e, the characters lo..hi with v, or n  *)
(*         entries by a rule                                              *)
(*   r  the entries of the result;  q  keys and the values found for them  *)
(***************************************************************************)
EXTENDS RangeMap, Cases

(* n entries <<2 i, i % 3>>, i from 0 *)
ManyAt(n, k) == LET i == IF k <= 0 THEN 0 ELSE (k + 1) \div 2 IN IF i >= n THEN 0 ELSE i % 3
At(m, k) == IF "e" \in DOMAIN m THEN Lookup(m.e, k)
            ELSE IF "n" \in DOMAIN m THEN ManyAt(m.n, k)
            ELSE IF k \in m.lo..m.hi THEN m.v ELSE 0
KeysOf(m) == IF "e" \in DOMAIN m THEN Keys(m.e) ELSE IF "n" \in DOMAIN m THEN {} ELSE {m.lo, m.hi}
AllKeys(maps) == UNION {KeysOf(maps[i]) : i \in 1..Len(maps)}
Values(maps, k) == {At(maps[i], k) : i \in 1..Len(maps)} \ {0}
Conflicting(maps) == \E k \in AllKeys(maps) : Cardinality(Values(maps, k)) > 1
Want(maps, k) == LET vs == Values(maps, k) IN IF vs = {} THEN 0 ELSE CHOOSE v \in vs : TRUE

Conforms == AtCase => LET r == Current IN
  IF Conflicting(r.maps) THEN r.o = "panic"
  ELSE /\ r.o = "ok"
       /\ Sorted(r.r)
       /\ \A i \in 1..Len(r.q) : r.q[i][2] = Want(r.maps, r.q[i][1])
       /\ (\E i \in 1..Len(r.maps) : "n" \in DOMAIN r.maps[i]) \/ \A k \in AllKeys(r.maps) : Lookup(r.r, k) = Want(r.maps, k)
=============================================================================
