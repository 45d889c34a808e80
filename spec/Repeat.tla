------------------------------- MODULE Repeat -------------------------------
(***************************************************************************)
(* What a program that uses the library repeatedly sees (C24).             *)
(*                                                                         *)
(* The state is what is known so far: the output of each input that was    *)
(* given, a function from inputs to outputs.  The first run of an input    *)
(* can give anything; it is for the other properties to say what.  Every   *)
(* later run gives that again, be it                                       *)
(*   at = "new"    in a process of its own,                                *)
(*   at = "away"   in one that has another environment and directory,      *)
(*   at = "same"   in the process of the run before, right after it,       *)
(*   at = "moved"  in that process, with memory taken in between, so that  *)
(*                 nothing lies where it did,                              *)
(*   at = "beside" in that process, by several threads at the same time,   *)
(* and mgr is the memory manager, global or local.  None of these is a     *)
(* part of the input.                                                      *)
(*                                                                         *)
(* A module that was written is an input, too, and the output of it is     *)
(* itself: s.once is a module made from one that was written, and s.twice  *)
(* one made from s.once.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Nothing == << >>
Allowed(seen, s) == /\ s.in \in DOMAIN seen => seen[s.in] = s.out
                    /\ s.twice = s.once
After(seen, s) == (s.in :> s.out) @@ seen

(* is it a history of the machine? *)
RECURSIVE Fits(_, _)
Fits(seen, q) == q = << >> \/ (Allowed(seen, Head(q)) /\ Fits(After(seen, Head(q)), Tail(q)))
=============================================================================
