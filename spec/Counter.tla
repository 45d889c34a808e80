------------------------------ MODULE Counter -------------------------------
(***************************************************************************)
(* A reference counter that threads share (C23).                           *)
(*                                                                         *)
(* A program gives for each thread the number of handles it starts with    *)
(* and its operations.  The counter holds the number of handles minus one; *)
(* a new one holds 0.  Each operation on a handle is one step:             *)
(*   add      a thread copies a handle that it has                         *)
(*   release  it drops one                                                 *)
(*   read     it asks for the object itself and gives it back              *)
(* The counter answers its value before the step: 0 tells a release that   *)
(* the handle was the last one, so that the object is destroyed, and a     *)
(* read that there is no other one, so that the object may be changed.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Delta(op) == CASE op = "add" -> 1 [] op = "release" -> -1 [] op = "read" -> 0
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
Deltas(ops) == Sum([k \in DOMAIN ops |-> Delta(ops[k])])

(* a thread uses a handle only while it has one *)
Legal(t) == \A k \in DOMAIN t.ops : t.h + Deltas(SubSeq(t.ops, 1, k - 1)) > 0

Start(p) == [count |-> Sum([i \in DOMAIN p |-> p[i].h]) - 1, res |-> [i \in DOMAIN p |-> << >>], last |-> << >>]
Done(s, i) == Len(s.res[i])
Can(p, s) == {i \in DOMAIN p : Done(s, i) < Len(p[i].ops)}
Do(p, s, i) == LET op == p[i].ops[Done(s, i) + 1]
               IN [count |-> s.count + Delta(op), res |-> [s.res EXCEPT ![i] = Append(@, s.count)],
                   last |-> <<i, op, s.count>>]
Step(p, s) == {Do(p, s, i) : i \in Can(p, s)}

(* the handles of a thread *)
Has(p, s, i) == p[i].h + Deltas(SubSeq(p[i].ops, 1, Done(s, i)))
Handles(p, s) == Sum([i \in DOMAIN p |-> Has(p, s, i)])

(* what a thread sees of an answer: a release destroys the object, a read gets the object for itself *)
Seen(op, a) == IF op # "add" /\ a = 0 THEN 1 ELSE 0

(* Is there an order of the operations in which the threads see what they saw in a recorded run?  At the end the *)
(* handles that are left are released one by one (rest).                                                          *)
RECURSIVE Fits(_, _, _)
Fits(p, s, r) ==
  IF Can(p, s) = {} THEN r.rest = [k \in 1..(s.count + 1) |-> IF k = s.count + 1 THEN 1 ELSE 0]
  ELSE \E i \in Can(p, s) : LET k == Done(s, i) + 1 IN
         /\ r.res[i][k] = Seen(p[i].ops[k], s.count)
         /\ Fits(p, Do(p, s, i), r)

(* Long runs: each thread starts with one handle; many times it copies it, asks for the object and gives the copy *)
(* back; then it gives up its handle.  Known is how often the object was destroyed by the release of a copy and   *)
(* by the last releases, and how often a thread got the object for itself.                                        *)
LongFits(r) == r.copy = 0 /\ r.sole = 0 /\ r.last = 1

(* Very many handles, all but one of them forgotten: with 2^p + d of them, more than one, a release of a copy does *)
(* not destroy the object and nobody gets it for himself.                                                         *)
ManyFits(r) == /\ \A k \in DOMAIN r.at : r.at[k].sole = 0 /\ r.at[k].freed = 0
               /\ \E k \in DOMAIN r.at : r.at[k].p = r.many /\ r.at[k].d = 2
=============================================================================
