------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Is a recorded value the value of the specification?  Recorded values    *)
(* are null, bool, num [f], str [s: UTF-16], big [v] and ref [n: a node];  *)
(* two references are the same node exactly when they have the same number.*)
(***************************************************************************)
EXTENDS Tokenizer, Decimal

(* The UTF-16 form of code points. *)
Utf16(s) == FoldLeft(LAMBDA acc, c :
              IF c < 65536 THEN Append(acc, c)
              ELSE acc \o <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>, << >>, s)

LeafIs(want, got) ==
  /\ want.k = got.k
  /\ CASE want.k = "null" -> TRUE
       [] want.k = "bool" -> want.b = got.b
       [] want.k = "str" -> got.s = Utf16(want.s)
       [] want.k = "num" -> IsDouble(got.f) /\ LiteralIs(want, got.f)
       [] want.k = "big" -> IsInt(got.v) /\ BigLiteralIs(want, got.v)
       [] OTHER -> FALSE

SameShape(a, b) ==
  /\ a.k = b.k
  /\ IF a.k = "arr" THEN Len(a.items) = Len(b.items)
     ELSE /\ Len(a.props) = Len(b.props)
          /\ \A i \in 1..Len(a.props) : Utf16(a.props[i][1]) = b.props[i][1]
Pairs(a, b) == IF a.k = "arr" THEN [i \in 1..Len(a.items) |-> <<a.items[i], b.items[i]>>]
               ELSE [i \in 1..Len(a.props) |-> <<a.props[i][2], b.props[i][2]>>]

(* `map` takes nodes of the specification to recorded nodes.  The result is the map extended to all
   nodes that are reached from the pairs in `work`, or <<FALSE>>. *)
No == <<FALSE>>
RECURSIVE Match(_, _, _, _)
Match(work, map, heap, nodes) ==
  IF work = << >> THEN <<TRUE, map>>
  ELSE LET want == work[1][1]
           got == work[1][2]
       IN IF want.k # "ref"
          THEN IF LeafIs(want, got) THEN Match(Tail(work), map, heap, nodes) ELSE No
          ELSE IF got.k # "ref" THEN No
          ELSE IF want.n \in DOMAIN map
          THEN IF map[want.n] = got.n THEN Match(Tail(work), map, heap, nodes) ELSE No
          ELSE IF \E n \in DOMAIN map : map[n] = got.n THEN No
          ELSE IF ~SameShape(heap[want.n], nodes[got.n]) THEN No
          ELSE Match(Pairs(heap[want.n], nodes[got.n]) \o Tail(work), (want.n :> got.n) @@ map, heap, nodes)
=============================================================================
