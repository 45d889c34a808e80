------------------------------ MODULE MemTrace ------------------------------
(***************************************************************************)
(* Conformance of the memory traffic of public operations (C10): every     *)
(* block is given back once, as it was taken, nobody writes to it          *)
(* afterwards, and the accounting follows.                                 *)
(***************************************************************************)
EXTENDS Blocks, Cases

Conforms == AtCase => LET r == Current IN r.o = "ok" /\ MemoryOk(r)
=============================================================================
