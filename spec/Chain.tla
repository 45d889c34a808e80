------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* Several runs of the converter, one after another (C20): the output of a *)
(* run is a module that later runs read, directly or through an import.    *)
(*   file    what each output file holds: << >> (there is none) or         *)
(*           <<[from, shared]>>, the sources its value was made of and     *)
(*           whether an array or object occurs in it twice                 *)
(*   steps   the runs so far                                               *)
(*   ok      did the last run succeed?                                     *)
(* The sources are modules written by hand.  A list imports files and      *)
(* makes a value of theirs.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxSteps
Outputs == {"x.json", "y.d.cjs", "z.d.mjs"}
Sources == {"plain", "big"}
Lists == {"pair", "mixed"}
Imports == [l \in Lists |-> IF l = "pair" THEN {"y.d.cjs", "z.d.mjs"} ELSE {"x.json", "y.d.cjs"}]
Inputs == Outputs \cup Sources \cup Lists
VARIABLES file, steps, ok
vars == <<file, steps, ok>>

(* the value of a module, << >> if it cannot be loaded *)
Value(i) ==
  CASE i \in Outputs -> file[i]
    [] i \in Sources -> <<[from |-> {i}, shared |-> i = "big"]>>
    [] OTHER -> IF \E f \in Imports[i] : file[f] = << >> THEN << >>
                ELSE <<[from |-> UNION {file[f][1].from : f \in Imports[i]}, shared |-> TRUE]>>
(* JSON has no bigints, and everything in it is written out *)
As(v, o) == IF o # "x.json" THEN <<v>>
            ELSE IF "big" \in v.from THEN << >>
            ELSE <<[v EXCEPT !.shared = FALSE]>>

Init == file = [o \in Outputs |-> << >>] /\ steps = << >> /\ ok = TRUE
Run(i, o) ==
  /\ Len(steps) < MaxSteps
  /\ LET v == Value(i)
         w == IF v = << >> THEN << >> ELSE As(v[1], o)
     IN /\ ok' = (w # << >>)
        /\ file' = IF w = << >> THEN file ELSE [file EXCEPT ![o] = w]
  /\ steps' = Append(steps, <<i, o>>)
Next == \E i \in Inputs, o \in Outputs : Run(i, o)
Spec == Init /\ [][Next]_vars
=============================================================================
