-------------------------------- MODULE App ---------------------------------
(***************************************************************************)
(* One run of the converter (C20) as a small-step machine.  Paths and      *)
(* modules are abstract here: a module is good, shared (good, too), big    *)
(* (holds a bigint, which JSON cannot express), bad (malformed),           *)
(* unreadable, missing or it imports the module "lib".                     *)
(*   args    the arguments, [dir, ext] with dir in / out                   *)
(*   main, lib   the modules                                               *)
(*   pc      what is done next; ok and err are the ends                    *)
(*   reads   number of reads so far; fail the number of the read that      *)
(*           failed by a fault (0: none)                                   *)
(*   out     content of the output file: old, empty, part, new             *)
(*   creates how often the output file was created                        *)
(*   cfail, wfail   faults of the output file                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Inputs, Outputs, MaxArgs
Modules == {"good", "shared", "big", "bad", "unreadable", "missing"}
Mains == Modules \cup {"imports", "self"}
Format == [i \in Outputs |-> CASE i = "o.json" -> "json" [] i = "o.d.cjs" -> "cjs" [] i = "o.d.mjs" -> "mjs"
                               [] i = "in.json" -> "json" [] OTHER -> "none"]
VARIABLES args, main, lib, pc, reads, fail, out, creates, cfail, wfail
vars == <<args, main, lib, pc, reads, fail, out, creates, cfail, wfail>>
fixed == <<args, main, lib>>
file == <<out, creates, cfail, wfail>>

ArgLists == {<< >>} \cup {<<i>> : i \in Inputs} \cup (Inputs \X Outputs)
              \cup (IF MaxArgs > 2 THEN {<<i, o, "more">> : i \in Inputs, o \in Outputs} ELSE {})
Init == /\ args \in ArgLists
        /\ main \in Mains
        /\ lib \in IF main = "imports" THEN Modules ELSE {"missing"}
        /\ pc = "args" /\ reads = 0 /\ fail = 0
        /\ out = "old" /\ creates = 0 /\ cfail = FALSE /\ wfail = FALSE

Args == /\ pc = "args"
        /\ pc' = IF Len(args) < 2 THEN "err" ELSE "ext"
        /\ UNCHANGED <<fixed, reads, fail, file>>
Ext == /\ pc = "ext"
       /\ pc' = IF Format[args[2]] = "none" THEN "err" ELSE "readMain"
       /\ UNCHANGED <<fixed, reads, fail, file>>
Read(step, m, next) ==
  /\ pc = step
  /\ reads' = reads + 1
  /\ \/ pc' = (IF m \in {"unreadable", "missing"} THEN "err" ELSE next) /\ UNCHANGED fail
     \/ pc' = "err" /\ fail' = reads + 1                                \* a fault
  /\ UNCHANGED <<fixed, file>>
ParseMain == /\ pc = "parseMain"
             /\ pc' = CASE main = "imports" -> "readLib"
                        [] main \in {"bad", "self"} -> "err"
                        [] OTHER -> "convert"
             /\ UNCHANGED <<fixed, reads, fail, file>>
ParseLib == /\ pc = "parseLib"
            /\ pc' = IF lib = "bad" THEN "err" ELSE "convert"
            /\ UNCHANGED <<fixed, reads, fail, file>>
Big == main = "big" \/ (main = "imports" /\ lib = "big")
Convert == /\ pc = "convert"
           /\ pc' = IF Format[args[2]] = "json" /\ Big THEN "err" ELSE "create"
           /\ UNCHANGED <<fixed, reads, fail, file>>
Create == /\ pc = "create"
          /\ \/ pc' = "write" /\ creates' = creates + 1 /\ out' = "empty" /\ UNCHANGED cfail
             \/ pc' = "err" /\ cfail' = TRUE /\ UNCHANGED <<creates, out>>
          /\ UNCHANGED <<fixed, reads, fail, wfail>>
(* a write may take a part only, and the rest is written afterwards *)
Write == /\ pc = "write"
         /\ \/ pc' = "write" /\ out = "empty" /\ out' = "part" /\ UNCHANGED wfail
            \/ pc' = "ok" /\ out' = "new" /\ UNCHANGED wfail
            \/ pc' = "err" /\ wfail' = TRUE /\ UNCHANGED out
         /\ UNCHANGED <<fixed, reads, fail, creates, cfail>>
Next == Args \/ Ext \/ Read("readMain", main, "parseMain") \/ ParseMain
          \/ Read("readLib", lib, "parseLib") \/ ParseLib \/ Convert \/ Create \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
