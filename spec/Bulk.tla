-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Families of value graphs of any size n (C07, C08).  The graph is given  *)
(* by the children of its nodes; the value is the last node.  Facts gives  *)
(* what a reader must find in closed form; BulkMC checks the closed forms  *)
(* against the graphs.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Families == {"twice", "mirror", "chain", "skip", "list", "wide", "one", "third", "layers"}

Up(n) == [i \in 1..n |-> i]
Size(f, n) ==
  CASE f \in {"twice", "mirror", "wide", "third"} -> n + 1
    [] f \in {"chain", "skip", "list"} -> n
    [] f = "one" -> 2
    [] f = "layers" -> 4 * n + 1

Kids(f, n, i) ==
  CASE f \in {"twice", "mirror", "wide", "third"} ->
         IF i <= n THEN << >>
         ELSE (CASE f = "twice" -> Up(n) \o Up(n)
                [] f = "mirror" -> Up(n) \o [k \in 1..n |-> n + 1 - k]
                [] f = "wide" -> Up(n)
                [] f = "third" -> Up(n) \o [k \in 1..(n \div 3) |-> 3 * k])
    [] f = "chain" -> IF i = 1 THEN << >> ELSE <<i - 1, i - 1>>
    [] f = "skip" -> IF i = 1 THEN << >> ELSE IF i = 2 THEN <<1>> ELSE <<i - 1, i - 2>>
    [] f = "list" -> IF i = 1 THEN << >> ELSE <<i - 1>>
    [] f = "one" -> IF i = 1 THEN << >> ELSE [k \in 1..n |-> 1]
    [] f = "layers" -> IF i <= 4 THEN << >>
                       ELSE [k \in 1..4 |-> 4 * ((i - 1) \div 4 - 1) + k]

(* nodes, nodes with more than one use, references between nodes; for n > 2 *)
Facts(f, n) ==
  CASE f \in {"twice", "mirror"} -> [nodes |-> n + 1, shared |-> n, refs |-> 2 * n]
    [] f = "wide" -> [nodes |-> n + 1, shared |-> 0, refs |-> n]
    [] f = "third" -> [nodes |-> n + 1, shared |-> n \div 3, refs |-> n + n \div 3]
    [] f = "chain" -> [nodes |-> n, shared |-> n - 1, refs |-> 2 * (n - 1)]
    [] f = "skip" -> [nodes |-> n, shared |-> n - 2, refs |-> 1 + 2 * (n - 2)]
    [] f = "list" -> [nodes |-> n, shared |-> 0, refs |-> n - 1]
    [] f = "one" -> [nodes |-> 2, shared |-> 1, refs |-> n]
    [] f = "layers" -> [nodes |-> 4 * n + 1, shared |-> 4 * (n - 1), refs |-> 16 * (n - 1) + 4]

(* What a JSON text holds: every path is written out, nothing is shared.  Families with few paths only. *)
Flat == {"twice", "mirror", "list", "wide", "one", "third"}
FlatFacts(f, n) ==
  LET paths == IF f = "list" THEN n - 1 ELSE Facts(f, n).refs
  IN [nodes |-> paths + 1, shared |-> 0, refs |-> paths]
=============================================================================
