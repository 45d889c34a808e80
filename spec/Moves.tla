------------------------------- MODULE Moves --------------------------------
(***************************************************************************)
(* Calls that take values out of the hands of the caller, and what happens *)
(* to each value when something in them fails (C22).                       *)
(*                                                                         *)
(* A call is one of                                                        *)
(*   build   a block of `claim` elements (-1: more than can be allocated)  *)
(*           is built from an iterator that has `have` values and panics   *)
(*           at its call number `stop` (0: never); then the elements are   *)
(*           read and the block is released; the destructor of element     *)
(*           `bad` panics (0: of none)                                     *)
(*   modify  the functions fs are applied to the value in a slot, one      *)
(*           after another: keep returns its argument, new returns another *)
(*           value, stop panics, stopnew panics after it made another one  *)
(*                                                                         *)
(* State: place of each value, how often it was dropped, what was read.    *)
(*   iter    not taken yet          block, slot   owned by the object      *)
(*   hand    taken by a function    gone          dropped or left behind   *)
(* A failure ends in a panic of the call or in the end of the process      *)
(* (abort).  What was put in the block by then may be dropped or leak;     *)
(* nothing is dropped twice, and nothing is dropped or read that was not   *)
(* put there.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Values(c) == 1..(IF c.kind = "build" THEN c.have ELSE 1 + Len(c.fs))
Start(c) == [pc |-> IF c.kind = "build" THEN "alloc" ELSE "apply", i |-> 0,
             place |-> [v \in Values(c) |-> IF c.kind = "build" THEN "iter" ELSE IF v = 1 THEN "slot" ELSE "none"],
             drops |-> [v \in Values(c) |-> 0], read |-> << >>, out |-> ""]

In(s, p) == {v \in DOMAIN s.place : s.place[v] = p}
Drop(s, vs) == [s EXCEPT !.drops = [v \in DOMAIN @ |-> @[v] + IF v \in vs THEN 1 ELSE 0],
                         !.place = [v \in DOMAIN @ |-> IF v \in vs THEN "gone" ELSE @[v]]]
End(s, out) == [s EXCEPT !.pc = "end", !.out = out,
                         !.place = [v \in DOMAIN @ |-> IF @[v] = "none" THEN "none" ELSE "gone"]]

(* a panic leaves the call: the iterator is dropped, the block may be *)
Unwind(s) == {End(Drop(s, In(s, "iter") \cup vs), "panic") : vs \in SUBSET In(s, "block")}
(* the process ends; a panic may have dropped something on its way *)
Abort(s) == {End(Drop(s, vs), "abort") : vs \in SUBSET (In(s, "iter") \cup In(s, "block") \cup In(s, "hand"))}
Fail(s) == Unwind(s) \cup Abort(s)

Alloc(c, s) == IF c.claim = -1 THEN Fail(s) ELSE {[s EXCEPT !.pc = "next"]}
Take(c, s) ==
  IF s.i = c.claim
  THEN LET t == Drop(s, In(s, "iter")) IN
       {[t EXCEPT !.pc = "held", !.read = [k \in 1..c.claim |-> k]]}
  ELSE IF s.i + 1 = c.stop \/ s.i >= c.have THEN Fail(s)
  ELSE {[s EXCEPT !.i = @ + 1, !.place[s.i + 1] = "block"]}
Release(c, s) ==
  IF c.bad = 0 THEN {End(Drop(s, In(s, "block")), "ok")}
  ELSE {End(Drop(s, {c.bad} \cup vs), o) : vs \in SUBSET In(s, "block"), o \in {"panic", "abort"}}

(* s.i functions are done; function i + 1 makes value i + 2 *)
Apply(c, s) ==
  IF s.i = Len(c.fs) THEN {End(Drop([s EXCEPT !.read = <<CHOOSE v \in In(s, "slot") : TRUE>>], In(s, "slot")), "ok")}
  ELSE LET f == c.fs[s.i + 1]
           old == CHOOSE v \in In(s, "slot") : TRUE
           new == s.i + 2
           next == [s EXCEPT !.i = @ + 1]
           held == [s EXCEPT !.place[old] = "hand"]
       IN CASE f = "keep" -> {next}
            [] f = "new" -> {Drop([next EXCEPT !.place[new] = "slot"], {old})}
            [] f = "stop" -> Abort(held)
            [] OTHER -> Abort([held EXCEPT !.place[new] = "hand"])

Step(c, s) == CASE s.pc = "alloc" -> Alloc(c, s)
                [] s.pc = "next" -> Take(c, s)
                [] s.pc = "held" -> Release(c, s)
                [] s.pc = "apply" -> Apply(c, s)
                [] OTHER -> {}
=============================================================================
