---------------------------- MODULE RepeatTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded histories of runs (C24).  Each step has, in     *)
(* place of the outputs, their lengths and hashes.                         *)
(***************************************************************************)
EXTENDS Repeat, Cases

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ Len(r.runs) = Len(r.steps)
  /\ Fits(Nothing, [k \in DOMAIN r.steps |->
                      [in |-> r.steps[k].in, out |-> r.runs[k].out, once |-> r.runs[k].once, twice |-> r.runs[k].twice]])
=============================================================================
