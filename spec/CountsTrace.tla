---------------------------- MODULE CountsTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded histories of an object with many handles.  A    *)
(* step is [op, r, live (blocks alive), whole (what handles show is what   *)
(* was stored)].                                                           *)
(***************************************************************************)
EXTENDS Counts, Blocks, Cases

Step(acc, s) ==
  IF ~acc.ok \/ ~Can(acc.st, s.op) THEN [acc EXCEPT !.ok = FALSE]
  ELSE LET t == After(acc.st, s.op)
       IN [ok |-> s.r = Result(acc.st, s.op) /\ s.live = Blocks1(t) /\ s.whole, st |-> t]

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ LET end == FoldLeft(Step, [ok |-> TRUE, st |-> Born], r.steps)
     IN end.ok /\ ~Alive(end.st) /\ end.st.fans = << >>
  /\ MemoryOk(r)
=============================================================================
