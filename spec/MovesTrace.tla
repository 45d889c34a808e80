----------------------------- MODULE MovesTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded calls (C22).                                    *)
(*   call         the call, as in Moves                                    *)
(*   mgr, elem    the manager and the type of the values                   *)
(*   handle       what the block is released by: a mutable reference, a    *)
(*                reference, the last of three, one that became mutable    *)
(*                again                                                    *)
(*   huge, log2   claim = -1: 2^p - d elements of 2^log2 bytes             *)
(*   profile      with or without the checks of a debug build              *)
(*   out          ok, panic, abort, crash (anything else)                  *)
(*   drops, read  how often each value was dropped, what was read          *)
(*   junk         how often something that is no value was dropped         *)
(*   asked        did the call ask its manager for memory? (only known     *)
(*                where mgr is "own")                                      *)
(***************************************************************************)
EXTENDS Moves, Cases

RECURSIVE EndsOf(_, _)
EndsOf(c, s) == IF s.pc = "end" THEN {s} ELSE UNION {EndsOf(c, t) : t \in Step(c, s)}

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ r.junk = 0
  /\ \E e \in EndsOf(r.call, Start(r.call)) :
       /\ e.out = r.out
       /\ r.read = e.read
       /\ \A v \in Values(r.call) : r.drops[v] = e.drops[v]
  \* a block is not larger than what an address can reach
  /\ r.asked /\ r.call.kind = "build" => IF r.call.claim = -1 THEN r.huge[1] + r.log2 <= 62 ELSE TRUE
=============================================================================
