------------------------------- MODULE AppMC --------------------------------
(***************************************************************************)
(* All runs of the converter; each end is printed as a behaviour to be     *)
(* executed by the code.                                                   *)
(***************************************************************************)
EXTENDS App, Json, TLC

TypeOK == /\ pc \in {"args", "ext", "readMain", "parseMain", "readLib", "parseLib", "convert", "create", "write", "ok", "err"}
          /\ out \in {"old", "empty", "part", "new"} /\ creates \in 0..1 /\ reads \in 0..2
OkIsWritten == pc = "ok" <=> out = "new"
(* nothing is written by a run that fails, unless the write itself fails *)
ErrWritesNothing == pc = "err" => out = "old" \/ wfail
Once == (pc = "ok" => creates = 1) /\ (creates = 1 <=> out # "old")
(* a fault never goes unnoticed *)
Noticed == fail # 0 \/ cfail \/ wfail => pc = "err"
ReadBeforeWrite == creates = 1 => reads = (IF main = "imports" THEN 2 ELSE 1)
(* it ends unless writes make no progress *)
Ends == <>(pc \in {"ok", "err"})

Emit == pc \in {"ok", "err"} =>
  PrintT("GEN " \o ToJson([args |-> args, main |-> main, lib |-> lib, fail |-> fail,
                           cfail |-> cfail, wfail |-> wfail]))
=============================================================================
