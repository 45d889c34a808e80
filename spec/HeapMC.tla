------------------------------- MODULE HeapMC -------------------------------
(***************************************************************************)
(* Reference counters implement handles (C09).  Next to the abstract heap  *)
(* runs the machine of the implementation: every object has a counter,     *)
(* which is the number of its handles minus one; releasing a handle of an  *)
(* object whose counter is 0 deletes it, which releases its items.  TLC    *)
(* explores all histories within the bounds, checks that both agree, and   *)
(* prints a history for every transition; these drive the implementation.  *)
(***************************************************************************)
EXTENDS Heap, TLC, Json

CONSTANTS NSlots, NObjs, Kinds, MaxLen, Looks
(* A history is printed for one in Every transitions (TLC keeps every string it prints). *)
CONSTANT Every

VARIABLES st, cnt, freed, bad, hist
vars == <<st, cnt, freed, bad, hist>>
View == <<st, cnt, freed, bad>>

Dead == -1

(* --- the counter machine: [cnt, freed, bad] --- *)

M == [cnt |-> cnt, freed |-> freed, bad |-> bad]
Use(m, n) == IF n \in m.freed THEN [m EXCEPT !.bad = TRUE] ELSE m
AddRef(m, x) == IF ~IsRef(x) THEN m ELSE [Use(m, x.n) EXCEPT !.cnt[x.n] = @ + 1]
RECURSIVE Release(_, _, _), Delete(_, _, _)
Release(m, objs, x) ==
  IF ~IsRef(x) THEN m
  ELSE LET u == Use(m, x.n)
           old == u.cnt[x.n]
           v == [u EXCEPT !.cnt[x.n] = @ - 1]
       IN IF old = 0 THEN Delete(v, objs, x.n) ELSE v
Delete(m, objs, n) ==
  LET u == [Use(m, n) EXCEPT !.freed = @ \cup {n}]
  IN FoldLeft(LAMBDA acc, x : Release(acc, objs, x), u, objs[n].xs)

(* What the implementation does to the counters; objs are the objects before the step. *)
Counters(op, out) ==
  LET s == st.slots[op.a]
      objs == st.objs
  IN CASE op.op = "new" -> [M EXCEPT !.cnt = Append(@, 0)]
       [] op.op \in {"toref", "toany", "look", "eq"} -> M
       [] op.op = "trymut" -> Use(M, s.x.n)
       [] op.op = "cast" -> IF s.k = op.k THEN M ELSE Release(M, objs, s.x)
       [] op.op = "visit" -> M
       [] op.op = "clone" -> AddRef(M, s.x)
       [] op.op = "assign" -> Release(AddRef(M, s.x), objs, st.slots[op.b].x)
       [] op.op = "get" -> AddRef(M, objs[s.x.n].xs[op.i])
       [] op.op = "put" -> IF "s" \in DOMAIN op.x THEN M ELSE Release(M, objs, objs[s.x.n].xs[op.i])
       [] op.op = "write" -> M
       [] op.op = "drop" -> IF s.h = "mut" THEN Delete(M, objs, s.x.n) ELSE Release(M, objs, s.x)
       \* the iteration holds the value, and every key
       [] op.op = "each" -> LET m == AddRef(M, s.x)
                                w == FoldLeft(LAMBDA acc, x : Release(AddRef(acc, x), objs, x), m, out.r.seen)
                            IN Release(w, objs, s.x)
       [] OTHER -> M

(* --- the operations to choose from --- *)

Leaf == {[v |-> 7]}
Anys == {[s |-> i] : i \in {j \in 1..NSlots : st.slots[j].h = "any"}}
Keys == {[s |-> i] : i \in {j \in 1..NSlots : st.slots[j].h = "ref" /\ st.slots[j].k = "str"}}
Contents(k) ==
  IF k \in {"str", "vec", "big"} THEN {<<[v |-> 5]>>}
  ELSE IF k = "fix" THEN {<<[v |-> 5]>>}
  ELSE IF k = "arr" THEN {<< >>} \cup {<<x>> : x \in Anys} \cup (IF MaxLen < 2 THEN {} ELSE {<<x, y>> : x \in Anys, y \in Anys \cup Leaf})
  ELSE {<<k1, x>> : k1 \in Keys, x \in Anys \cup Leaf}
Slots1 == 1..NSlots
(* objects are made in the first empty slot, copies go there, too *)
Gap == IF \E i \in Slots1 : Empty(st, i) THEN CHOOSE i \in Slots1 : Empty(st, i) /\ \A j \in 1..(i - 1) : ~Empty(st, j) ELSE 0
Ops ==
  {op \in
    (IF Gap = 0 \/ Len(st.objs) >= NObjs THEN {} ELSE UNION {{[op |-> "new", a |-> Gap, k |-> k, xs |-> xs] : xs \in Contents(k)} : k \in Kinds})
    \cup {[op |-> o, a |-> a] : o \in {"toref", "trymut", "toany", "drop"} \cup (IF Looks THEN {"look"} ELSE {}), a \in Slots1}
    \cup {[op |-> "visit", a |-> a] : a \in Slots1}
    \cup {[op |-> "cast", a |-> a, k |-> k] : a \in Slots1, k \in Kinds \cap JsKinds}
    \cup (IF Looks THEN {[op |-> "cast", a |-> a, k |-> k] : a \in Slots1, k \in {"num", "null", "bool"}} ELSE {})
    \cup (IF Gap = 0 THEN {} ELSE {[op |-> "clone", a |-> a, b |-> Gap] : a \in Slots1})
    \cup {[op |-> "assign", a |-> a, b |-> b] : a \in Slots1, b \in Slots1}
    \cup (IF Gap = 0 THEN {} ELSE {[op |-> "get", a |-> a, i |-> i, b |-> Gap] : a \in Slots1, i \in 1..2})
    \cup {[op |-> "put", a |-> a, i |-> i, x |-> x] : a \in Slots1, i \in 1..2, x \in Anys \cup Leaf}
    \cup {[op |-> "write", a |-> a, i |-> 1, v |-> 6] : a \in Slots1}
    \cup (IF Looks THEN {[op |-> "each", a |-> a, j |-> j] : a \in Slots1, j \in 0..1} ELSE {})
    \cup (IF Looks THEN {[op |-> "eq", a |-> a, b |-> b] : a \in Slots1, b \in Slots1} ELSE {})
   : Enabled(st, op)}

Init == st = Start(NSlots) /\ cnt = << >> /\ freed = {} /\ bad = FALSE /\ hist = << >>
Next == \E op \in Ops :
  LET out == Do(st, op)
      m == Counters(op, out)
  IN /\ st' = out.st
     /\ cnt' = m.cnt
     /\ freed' = m.freed
     /\ bad' = m.bad
     /\ hist' = Append(hist, op)
     /\ IF Every > 1 /\ RandomElement(1..Every) > 1 THEN TRUE ELSE PrintT("GEN " \o ToJson([slots |-> NSlots, ops |-> hist']))

(* --- what must hold --- *)

NeverFreedInUse == ~bad
FreedWhenUnused == freed = (1..Len(st.objs)) \ Live(st)
CounterIsHandles == \A n \in Live(st) : cnt[n] = Handles(st, n) - 1
(* a mutable reference is the only handle *)
MutIsOnly == \A i \in Slots1 : st.slots[i].h = "mut" => Handles(st, st.slots[i].x.n) = 1
SlotsAreTyped == \A i \in Slots1 : Holds(st.slots[i]) => st.slots[i].k = st.objs[st.slots[i].x.n].k
Acyclic == \A n \in Live(st) : n \notin Closure(st.objs, RefsOf(st.objs[n]))
=============================================================================
