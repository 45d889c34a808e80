------------------------------- MODULE SerMC --------------------------------
(***************************************************************************)
(* All small value graphs, built node by node, and a model of the writer   *)
(* of modules: constants for shared nodes, in the order in which they are  *)
(* complete, then the value.  TLC checks that the reader of the            *)
(* specification reads back the same graph with the same sharing.  The     *)
(* graphs drive the implementation.                                        *)
(***************************************************************************)
EXTENDS Parser, Json, FiniteSets
CONSTANTS MaxNodes, MaxItems

VARIABLE heap
vars == <<heap>>

Leaf == [k |-> "leaf"]
Key(i) == <<106 + i>>
Kids(n) == n.items
(* items of a new node: leaves and older nodes *)
Items(n) == UNION {[1..k -> {Leaf} \cup {VRef(m) : m \in 1..n}] : k \in 0..MaxItems}
Init == heap = << >>
Next == Len(heap) < MaxNodes /\ \E kind \in {"arr", "obj"}, it \in Items(Len(heap)) :
          heap' = Append(heap, [k |-> kind, items |-> it])
Spec == Init /\ [][Next]_vars

(* --- the value is the last node --- *)
RECURSIVE Reach(_, _)
Reach(todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET n == CHOOSE x \in todo : TRUE
           kids == {heap[n].items[i].n : i \in {j \in 1..Len(heap[n].items) : heap[n].items[j].k = "ref"}}
       IN Reach((todo \cup kids) \ (seen \cup {n}), seen \cup {n})
Top == Len(heap)
All == Reach({Top}, {})
UsesOf(n) == FoldLeft(LAMBDA acc, m : IF m \in All
               THEN acc + Len(SelectSeq(heap[m].items, LAMBDA v : v = VRef(n))) ELSE acc,
               0, [i \in 1..Len(heap) |-> i])
IsShared(n) == UsesOf(n) > 1

Num10(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + (n % 10)>>
Const(n) == <<95>> \o Num10(n)
(* the text of a value; nodes of `done` are constants *)
RECURSIVE Text(_, _)
Inner(n, done) ==
  LET node == heap[n]
      item(i) == (IF i > 1 THEN <<44>> ELSE << >>)
                 \o (IF node.k = "obj" THEN <<QUOTE>> \o Key(i) \o <<QUOTE, 58>> ELSE << >>)
                 \o Text(node.items[i], done)
      body == FoldLeft(LAMBDA acc, i : acc \o item(i), << >>, [i \in 1..Len(node.items) |-> i])
  IN IF node.k = "arr" THEN <<91>> \o body \o <<93>> ELSE <<123>> \o body \o <<125>>
Text(v, done) ==
  IF v.k = "leaf" THEN <<55>>
  ELSE IF v.n \in done THEN Const(v.n) ELSE Inner(v.n, done)
(* older nodes come first, so constants are defined before their use *)
ModuleText ==
  LET shared == {n \in All : IsShared(n)}
      defs == FoldLeft(LAMBDA acc, n : IF n \in shared
                THEN acc \o W_const \o <<SP>> \o Const(n) \o <<61>> \o Inner(n, shared) \o <<59>> ELSE acc,
                << >>, [i \in 1..Len(heap) |-> i])
  IN defs \o W_export \o <<SP>> \o W_default \o <<SP>> \o Text(VRef(Top), shared)

Read == FoldLeft(LAMBDA acc, tok : PStep(acc.p, acc.heap, tok), Res(PStart, << >>), Tokens(ModuleText))

(* a one-to-one map from the nodes read to the nodes of the value *)
RECURSIVE Iso(_, _, _)
ItemsRead(node) == IF node.k = "arr" THEN node.items ELSE [i \in 1..Len(node.props) |-> node.props[i][2]]
Iso(work, map, h) ==
  IF work = << >> THEN TRUE
  ELSE LET a == work[1][1]  b == work[1][2] IN
       IF a.k # "ref" THEN b.k = "leaf" /\ a.k = "num" /\ Iso(Tail(work), map, h)
       ELSE IF a.n \in DOMAIN map THEN map[a.n] = b.n /\ Iso(Tail(work), map, h)
       ELSE IF \E x \in DOMAIN map : map[x] = b.n THEN FALSE
       ELSE LET it == ItemsRead(h[a.n]) IN
            /\ h[a.n].k = heap[b.n].k
            /\ Len(it) = Len(heap[b.n].items)
            /\ Iso([i \in 1..Len(it) |-> <<it[i], heap[b.n].items[i]>>] \o Tail(work), Put(map, a.n, b.n), h)

RoundTrip == heap # << >> =>
  /\ Read.p.m = "done" /\ Read.p.dt = "mjs"
  /\ Iso(<<<<Read.p.val, VRef(Top)>>>>, << >>, Read.heap)
  /\ Len(Read.heap) = Cardinality(All)
  /\ Cardinality(DOMAIN Read.p.consts) = Cardinality({n \in All : IsShared(n)})
(* graphs with nodes that the value does not reach are the graphs of shorter heaps *)
Emit == (heap # << >> /\ All = 1..Top) => PrintT("GEN " \o ToJson([nodes |-> heap]))
=============================================================================
