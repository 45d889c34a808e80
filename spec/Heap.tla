-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Handles and objects, as a user sees them (C09).                         *)
(*                                                                         *)
(* Objects are numbered in the order they are made.  Items of an object    *)
(* are simple values [v] or references [n] to objects; an "obj" has keys   *)
(* (references to strings) at odd places.  A slot of the program is empty  *)
(* or holds a handle: the only, mutable, reference ("mut"), a shared       *)
(* reference of a known type ("ref"), or a dynamic value ("any").          *)
(*                                                                         *)
(* There are no counters here: an object lives while a slot, or a living   *)
(* object, refers to it.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

NoSlot == [h |-> "none"]
Slot(h, k, x) == [h |-> h, k |-> k, x |-> x]
Start(n) == [slots |-> [i \in 1..n |-> NoSlot], objs |-> << >>]

IsRef(x) == "n" \in DOMAIN x
SimpleType(v) == CASE v = -1 -> "null" [] v = -2 -> "bool" [] v = -3 -> "bool" [] OTHER -> "num"
JsKinds == {"str", "big", "arr", "obj"}
TypeOf(st, x) == IF IsRef(x) THEN st.objs[x.n].k ELSE SimpleType(x.v)
AnySlot(st, x) == Slot("any", TypeOf(st, x), x)

RefsOf(o) == {x.n : x \in {o.xs[i] : i \in {j \in 1..Len(o.xs) : IsRef(o.xs[j])}}}
RECURSIVE Closure(_, _)
Closure(objs, set) ==
  LET more == UNION {RefsOf(objs[n]) : n \in set} \ set
  IN IF more = {} THEN set ELSE Closure(objs, set \cup more)
Holds(s) == s.h # "none" /\ IsRef(s.x)
Roots(st) == {st.slots[i].x.n : i \in {j \in 1..Len(st.slots) : Holds(st.slots[j])}}
Live(st) == Closure(st.objs, Roots(st))

(* the number of handles of an object *)
Handles(st, n) ==
  Cardinality({i \in 1..Len(st.slots) : Holds(st.slots[i]) /\ st.slots[i].x.n = n})
  + FoldSet(LAMBDA m, acc : acc + Cardinality({i \in 1..Len(st.objs[m].xs) : st.objs[m].xs[i] = [n |-> n]}),
                          0, Live(st))

Payloads(o) == IF o.k \in {"fix", "vec"} THEN [i \in 1..Len(o.xs) |-> o.xs[i].v] ELSE << >>

With(st, a, s) == [st EXCEPT !.slots[a] = s]
Out(st, r) == [st |-> st, r |-> r, over |-> << >>]
Empty(st, a) == st.slots[a].h = "none"
Has(st, a, h) == st.slots[a].h = h

(* A value that is put somewhere comes from a slot, which it leaves, or is simple. *)
Given(st, x) == IF "s" \in DOMAIN x THEN st.slots[x.s].x ELSE x
Left(st, x) == IF "s" \in DOMAIN x THEN With(st, x.s, NoSlot) ELSE st

(* May the program do this now? *)
Enabled(st, op) ==
  CASE op.op = "new" ->
         /\ Empty(st, op.a)
         /\ op.k = "fix" => Len(op.xs) = 1
         /\ \A i \in 1..Len(op.xs) :
              /\ "s" \in DOMAIN op.xs[i] =>
                   /\ op.k \in {"arr", "obj"}
                   /\ \A j \in 1..(i - 1) : op.xs[j] # op.xs[i]
                   /\ IF op.k = "obj" /\ i % 2 = 1 THEN st.slots[op.xs[i].s].h = "ref" /\ st.slots[op.xs[i].s].k = "str"
                      ELSE Has(st, op.xs[i].s, "any")
              /\ op.k = "obj" /\ i % 2 = 1 => "s" \in DOMAIN op.xs[i]
         /\ op.k = "obj" => Len(op.xs) % 2 = 0
    [] op.op = "toref" -> Has(st, op.a, "mut")
    [] op.op = "trymut" -> Has(st, op.a, "ref")
    [] op.op = "toany" -> Has(st, op.a, "ref") /\ st.slots[op.a].k \in JsKinds
    [] op.op \in {"cast", "look", "visit", "each"} -> Has(st, op.a, "any")
    [] op.op = "clone" -> st.slots[op.a].h \in {"ref", "any"} /\ Empty(st, op.b)
    \* a place that holds a handle takes another one of its type (`clone_from`)
    [] op.op = "assign" -> /\ st.slots[op.a].h \in {"ref", "any"}
                           /\ op.a # op.b
                           /\ st.slots[op.b].h = st.slots[op.a].h
                           /\ Has(st, op.a, "ref") => st.slots[op.a].k = st.slots[op.b].k /\ st.slots[op.a].k # "fix"
    [] op.op = "get" -> /\ Empty(st, op.b)
                        /\ Holds(st.slots[op.a])
                        /\ st.slots[op.a].k \in {"arr", "obj"}
                        /\ op.i \in 1..Len(st.objs[st.slots[op.a].x.n].xs)
    [] op.op = "put" -> /\ Has(st, op.a, "mut")
                        /\ st.slots[op.a].k \in {"arr", "obj"}
                        /\ op.i \in 1..Len(st.objs[st.slots[op.a].x.n].xs)
                        /\ st.slots[op.a].k = "obj" => op.i % 2 = 0
                        /\ "s" \in DOMAIN op.x => Has(st, op.x.s, "any")
    [] op.op = "write" -> /\ Has(st, op.a, "mut")
                          /\ st.slots[op.a].k \in {"fix", "vec", "str", "big"}
                          /\ op.i \in 1..Len(st.objs[st.slots[op.a].x.n].xs)
    [] op.op = "drop" -> ~Empty(st, op.a)
    [] op.op = "eq" -> /\ st.slots[op.a].h \in {"ref", "any"}
                       /\ st.slots[op.b].h = st.slots[op.a].h
                       /\ Has(st, op.a, "ref") => st.slots[op.a].k = st.slots[op.b].k /\ st.slots[op.a].k # "fix"
    [] OTHER -> FALSE

(* What `for_each` shows until it is stopped at pair j (0: not stopped). *)
Shown(st, x, j) ==
  LET o == st.objs[x.n]
      all == IF ~IsRef(x) THEN << >>
             ELSE IF o.k = "arr" THEN FlattenSeq([i \in 1..Len(o.xs) |-> <<[v |-> i - 1], o.xs[i]>>])
             ELSE IF o.k = "obj" THEN o.xs ELSE << >>
  IN IF j > 0 /\ 2 * j <= Len(all) THEN [ok |-> FALSE, seen |-> SubSeq(all, 1, 2 * j)]
     ELSE [ok |-> TRUE, seen |-> all]

Do(st, op) ==
  LET s == st.slots[op.a] IN
  CASE op.op = "new" ->
         LET xs == [i \in 1..Len(op.xs) |-> Given(st, op.xs[i])]
             after == FoldLeft(LAMBDA t, x : Left(t, x), st, op.xs)
             n == Len(st.objs) + 1
         IN Out([With(after, op.a, Slot("mut", op.k, [n |-> n])) EXCEPT !.objs = Append(@, [k |-> op.k, xs |-> xs])], "ok")
    [] op.op = "toref" -> Out(With(st, op.a, Slot("ref", s.k, s.x)), "ok")
    [] op.op = "trymut" -> Out(IF Handles(st, s.x.n) = 1 THEN With(st, op.a, Slot("mut", s.k, s.x)) ELSE st, "ok")
    [] op.op = "toany" -> Out(With(st, op.a, Slot("any", s.k, s.x)), "ok")
    \* a failed cast drops the value
    [] op.op = "cast" ->
         IF op.k \in JsKinds
         THEN IF s.k = op.k THEN Out(With(st, op.a, Slot("ref", s.k, s.x)), "ok")
              ELSE Out(With(st, op.a, NoSlot), "refused")
         ELSE Out(With(st, op.a, NoSlot), [v |-> IF s.k = op.k THEN s.x.v ELSE -100])
    [] op.op = "look" -> Out(st, <<s.k>>)
    [] op.op = "visit" ->
         IF s.k \in JsKinds THEN Out(With(st, op.a, Slot("ref", s.k, s.x)), "ok")
         ELSE Out(With(st, op.a, NoSlot), [v |-> s.x.v])
    [] op.op \in {"clone", "assign"} -> Out(With(st, op.b, s), "ok")
    [] op.op = "get" ->
         LET o == st.objs[s.x.n]
             x == o.xs[op.i]
         IN Out(With(st, op.b, IF o.k = "obj" /\ op.i % 2 = 1 THEN Slot("ref", "str", x) ELSE AnySlot(st, x)), "ok")
    [] op.op = "put" ->
         LET old == st.objs[s.x.n].xs[op.i]
             t == [st EXCEPT !.objs[s.x.n].xs[op.i] = Given(st, op.x)]
         IN Out(IF "s" \in DOMAIN op.x THEN With(t, op.x.s, AnySlot(st, old)) ELSE t, "ok")
    [] op.op = "write" ->
         [Out([st EXCEPT !.objs[s.x.n].xs[op.i] = [v |-> op.v]], "ok") EXCEPT !.over =
            IF s.k \in {"fix", "vec"} THEN <<st.objs[s.x.n].xs[op.i].v>> ELSE << >>]
    [] op.op = "drop" -> Out(With(st, op.a, NoSlot), "ok")
    [] op.op = "each" -> Out(st, Shown(st, s.x, op.j))
    [] op.op = "eq" -> Out(st, IF s.x = st.slots[op.b].x THEN "same" ELSE "other")

(* Objects that go, and payloads that are dropped, in a step. *)
Gone(st, out) == (Live(st) \cup (IF Len(out.st.objs) > Len(st.objs) THEN {Len(out.st.objs)} ELSE {})) \ Live(out.st)
Dropped(st, out) ==
  out.over \o FoldSet(LAMBDA n, acc : acc \o Payloads(out.st.objs[n]), << >>, Gone(st, out))
=============================================================================
