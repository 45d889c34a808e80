------------------------------ MODULE BitSetMC ------------------------------
(***************************************************************************)
(* For all subsets of W bits: the descriptions by tag, mask and union and  *)
(* the operations on them agree with the sets of values.                   *)
(***************************************************************************)
EXTENDS BitSets
CONSTANT W
VARIABLES s, t, x
Sub == [1..W -> {{0}, {1}, Bits}]
Val == [1..W -> Bits]
Init == s \in Sub /\ t \in Sub /\ x \in Val
Next == UNCHANGED <<s, t, x>>
Members(u) == {v \in Val : Has(u, v)}

Faithful == FromTagMask(TagOf(s), MaskOf(s)) = s /\ Fits(TagOf(s), MaskOf(s))
ByBits == /\ \A i \in 1..W : TagOf(s)[i] = 1 <=> \A v \in Members(s) : v[i] = 1
          /\ \A i \in 1..W : UnionOf(s)[i] = 1 <=> \E v \in Members(s) : v[i] = 1
          /\ \A i \in 1..W : FreeOf(s)[i] = 1 <=> TagOf(s)[i] # UnionOf(s)[i]
HullIsSmallest == /\ Members(s) \cup Members(t) \subseteq Members(Hull(s, t))
                  /\ \A u \in Sub : (Members(s) \cup Members(t) \subseteq Members(u))
                                      => Members(Hull(s, t)) \subseteq Members(u)
MeetIsShared == /\ NonEmpty(Meet(s, t)) <=> Members(s) \cap Members(t) # {}
                /\ Members(Meet(s, t)) = Members(s) \cap Members(t)
SplitDivides == (Has([i \in 1..W |-> IF s[i] = Bits THEN Bits ELSE {0}], x) /\ \E i \in 1..W : x[i] = 1) =>
                  /\ Members(Part(s, x, 0)) \cap Members(Part(s, x, 1)) = {}
                  /\ Members(Part(s, x, 0)) \cup Members(Part(s, x, 1)) \subseteq Members(s)
                  /\ (Cardinality({i \in 1..W : x[i] = 1}) = 1) =>
                       Members(Part(s, x, 0)) \cup Members(Part(s, x, 1)) = Members(s)
=============================================================================
