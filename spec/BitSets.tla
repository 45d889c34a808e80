------------------------------- MODULE BitSets ------------------------------
(***************************************************************************)
(* Sets of bit patterns that are described bit by bit (C18): a subset is a *)
(* sequence of non-empty sets of bits, {0}, {1} or {0, 1}, one per         *)
(* position; a value is a sequence of bits and a member when each of its   *)
(* bits is in the set of its position.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bits == {0, 1}
Has(s, v) == \A i \in DOMAIN s : v[i] \in s[i]
(* the smallest subset that contains two, and what two share *)
Hull(s, t) == [i \in DOMAIN s |-> s[i] \cup t[i]]
Meet(s, t) == [i \in DOMAIN s |-> s[i] \cap t[i]]
NonEmpty(s) == \A i \in DOMAIN s : s[i] # {}
(* the part of s in which the chosen bits have a value *)
Part(s, x, b) == [i \in DOMAIN s |-> IF x[i] = 1 THEN {b} ELSE s[i]]

(* descriptions by bits: and, or and difference of all members *)
TagOf(s) == [i \in DOMAIN s |-> IF s[i] = {1} THEN 1 ELSE 0]
UnionOf(s) == [i \in DOMAIN s |-> IF s[i] = {0} THEN 0 ELSE 1]
FreeOf(s) == [i \in DOMAIN s |-> IF s[i] = Bits THEN 1 ELSE 0]
MaskOf(s) == [i \in DOMAIN s |-> IF s[i] = Bits THEN 0 ELSE 1]
FromTagMask(t, m) == [i \in DOMAIN t |-> IF m[i] = 0 THEN Bits ELSE {t[i]}]
Fits(t, m) == \A i \in DOMAIN t : t[i] <= m[i]     \* a tag has fixed bits only
=============================================================================
