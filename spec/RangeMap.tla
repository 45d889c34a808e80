------------------------------ MODULE RangeMap ------------------------------
(***************************************************************************)
(* Range maps (C17).  A map is a sequence of entries <<key, value>> with   *)
(* increasing keys; the value of an entry holds for every key above the    *)
(* previous entry up to its own key.  0 stands for no value (the default). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Sorted(m) == \A i \in 1..(Len(m) - 1) : m[i][1] < m[i + 1][1]
(* the value of a key: that of the first entry that is not below it *)
Lookup(m, k) == LET i == SelectInSeq(m, LAMBDA e : e[1] >= k)
                IN IF i = 0 THEN 0 ELSE m[i][2]

Keys(m) == {m[i][1] : i \in 1..Len(m)}
ConflictAt(a, b, k) == LET x == Lookup(a, k)  y == Lookup(b, k) IN x # 0 /\ y # 0 /\ x # y
(* Values change after an entry only, so its key is a key of every range. *)
Conflict(a, b) == \E k \in Keys(a) \cup Keys(b) : ConflictAt(a, b, k)
Either(x, y) == IF x # 0 THEN x ELSE y
=============================================================================
