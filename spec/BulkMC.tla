------------------------------- MODULE BulkMC -------------------------------
(***************************************************************************)
(* The closed forms of Bulk for all families and small sizes.  The graph   *)
(* is walked from its value; uses and paths are counted on the way.        *)
(***************************************************************************)
EXTENDS Bulk, FiniteSets, SequencesExt
CONSTANT MaxN

VARIABLES f, n, todo, seen, refs, flat
vars == <<f, n, todo, seen, refs, flat>>

Init == /\ f \in Families /\ n \in 3..MaxN
        /\ todo = <<Size(f, n)>> /\ seen = {} /\ refs = << >>
        /\ flat = 0
(* depth first: a node is entered once; each reference to it is noted *)
Next == /\ todo # << >>
        /\ LET i == Head(todo)  new == i \notin seen IN
           /\ seen' = seen \union {i}
           /\ refs' = IF new THEN refs \o Kids(f, n, i) ELSE refs
           /\ todo' = IF new THEN Kids(f, n, i) \o Tail(todo) ELSE Tail(todo)
           /\ flat' = flat + 1
           /\ UNCHANGED <<f, n>>
Spec == Init /\ [][Next]_vars

Done == todo = << >>
Uses(i) == Len(SelectSeq(refs, LAMBDA x : x = i))
Acyclic == \A i \in seen : \A k \in 1..Len(Kids(f, n, i)) : Kids(f, n, i)[k] < i
FactsRight == Done =>
  LET w == Facts(f, n) IN
  /\ Cardinality(seen) = w.nodes
  /\ Len(refs) = w.refs
  /\ Cardinality({i \in seen : Uses(i) > 1}) = w.shared
RECURSIVE Paths(_)
Paths(i) == FoldLeft(LAMBDA a, k : a + 1 + Paths(k), 0, Kids(f, n, i))
FlatRight == (Done /\ f \in Flat) => Paths(Size(f, n)) = FlatFacts(f, n).refs /\ FlatFacts(f, n).nodes = Paths(Size(f, n)) + 1
=============================================================================
