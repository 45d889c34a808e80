------------------------------ MODULE ChainMC -------------------------------
(***************************************************************************)
(* All sequences of runs up to what the files hold; each transition is     *)
(* printed as a sequence to be executed by the code.                       *)
(***************************************************************************)
EXTENDS Chain, Json, TLC

TypeOK == \A o \in Outputs : file[o] = << >> \/ (Len(file[o]) = 1 /\ file[o][1].from \in SUBSET Sources \ {{}})
JsonPlain == file["x.json"] # << >> => ~file["x.json"][1].shared /\ file["x.json"][1].from = {"plain"}
(* a file is not touched by a run that fails, and only one by a run that does not *)
OneFile == [][LET changed == {o \in Outputs : file[o] # file'[o]} IN
              /\ Cardinality(changed) <= 1
              /\ (~ok' => changed = {})
              /\ \A o \in changed : steps'[Len(steps')][2] = o]_vars
(* a file that is there can be converted to itself, and that changes nothing *)
Fixed == [][LET s == steps'[Len(steps')] IN s[1] = s[2] => file' = file /\ (ok' <=> file[s[1]] # << >>)]_vars
(* nothing disappears *)
Stays == [][\A o \in Outputs : file[o] # << >> => file'[o] # << >>]_vars

View == file
Emit == PrintT("GEN " \o ToJson([steps |-> steps', ok |-> ok']))
=============================================================================
