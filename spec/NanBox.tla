------------------------------- MODULE NanBox -------------------------------
(***************************************************************************)
(* How a dynamic value holds seven types in one word (C11).  A word is a   *)
(* double: sign, E exponent bits, the quiet bit, then 3 bits and a         *)
(* payload of P bits (in the implementation E = 11 and P = 48).  The words *)
(* that start with sign, exponent and quiet bit all set are negative quiet *)
(* NaNs; one NaN is enough, so they are free to hold the other types:      *)
(*   0 0 x  false or true (lowest bit)      0 1 x  null                    *)
(*   1 t t  an object at the address in the payload, tt its type           *)
(***************************************************************************)
EXTENDS BitSets
CONSTANTS E, P
W == 1 + E + 1 + 3 + P
Word == [1..W -> Bits]
Pre == E + 2                                        \* the bits of the prefix
Prefix(p) == [i \in 1..W |-> IF i <= Pre THEN {1}
                             ELSE IF i - Pre <= Len(p) THEN {p[i - Pre]} ELSE Bits]
Extension == Prefix(<< >>)
Subsets == [bool |-> Prefix(<<0, 0>>), null |-> Prefix(<<0, 1>>),
            str |-> Prefix(<<1, 0, 0>>), obj |-> Prefix(<<1, 0, 1>>),
            arr |-> Prefix(<<1, 1, 0>>), big |-> Prefix(<<1, 1, 1>>)]
Refs == {"str", "obj", "arr", "big"}

IsNaN(w) == (\A i \in 2..E + 1 : w[i] = 1) /\ \E i \in E + 2..W : w[i] = 1
OneNaN == [i \in 1..W |-> IF i \in 2..E + 2 THEN 1 ELSE 0]   \* positive and quiet

(* values: a kind and a content *)
Value == [k : {"num"}, c : Word] \cup [k : {"bool"}, c : Bits] \cup {[k |-> "null", c |-> 0]}
           \cup [k : Refs, c : [1..P -> Bits]]

TypeBits == [str |-> <<1, 0, 0>>, obj |-> <<1, 0, 1>>, arr |-> <<1, 1, 0>>, big |-> <<1, 1, 1>>]
Encode(v) ==
  CASE v.k = "num" -> IF IsNaN(v.c) THEN OneNaN ELSE v.c
    [] v.k = "bool" -> [i \in 1..W |-> IF i <= Pre THEN 1 ELSE IF i = W THEN v.c ELSE 0]
    [] v.k = "null" -> [i \in 1..W |-> IF i <= Pre \/ i = Pre + 2 THEN 1 ELSE 0]
    [] OTHER -> [i \in 1..W |-> IF i <= Pre THEN 1 ELSE IF i <= Pre + 3 THEN TypeBits[v.k][i - Pre]
                                ELSE v.c[i - Pre - 3]]

(* the kinds that a word is *)
Kind(w) == IF ~Has(Extension, w) THEN {"num"}
           ELSE {k \in DOMAIN Subsets : Has(Subsets[k], w)}
Decode(w, k) ==
  CASE k = "num" -> w
    [] k = "bool" -> w[W]
    [] k = "null" -> 0
    [] OTHER -> [i \in 1..P |-> w[Pre + 3 + i]]

Same(v, c) == IF v.k = "num" /\ IsNaN(v.c) THEN IsNaN(c) ELSE c = v.c
=============================================================================
