------------------------------ MODULE NanBoxMC ------------------------------
(***************************************************************************)
(* For all pairs of values: a value has exactly its own kind and comes     *)
(* back; words are equal exactly when values are (any two NaNs are).       *)
(***************************************************************************)
EXTENDS NanBox
VARIABLES v, w
Init == v \in Value /\ w \in Value
Next == UNCHANGED <<v, w>>

OwnKind == Kind(Encode(v)) = {v.k}
ComesBack == Same(v, Decode(Encode(v), v.k))
NoClash == Encode(v) = Encode(w) <=> (v = w \/ (v.k = "num" /\ w.k = "num" /\ IsNaN(v.c) /\ IsNaN(w.c)))
OneKind == v.k = "num" => Cardinality(Kind(v.c)) = 1      \* of every word
KeepNaN == IsNaN(OneNaN) /\ ~Has(Extension, OneNaN)
=============================================================================
