------------------------------ MODULE LoaderMC ------------------------------
(***************************************************************************)
(* All small file systems: every module is missing, unreadable, malformed, *)
(* or a module with up to MaxRefs references to any of the modules.  Two   *)
(* loads are made with one cache; the first one may meet a read fault, and *)
(* with Changes one module becomes any other before the second one.        *)
(* The loader is run step by step; its invariants are checked in every     *)
(* state and its result is compared with a definition of what is loaded    *)
(* that does not follow the steps.                                         *)
(***************************************************************************)
EXTENDS Loader, Json, FiniteSets
CONSTANTS NFiles, MaxRefs, Faults, Changes, Emitting

FilesUsed == 1..NFiles
Name(i) == <<96 + i>>
(* what a module is *)
RefLists == UNION {[1..n -> FilesUsed] : n \in 0..MaxRefs}
Mods == {[kind |-> "missing", refs |-> << >>], [kind |-> "unreadable", refs |-> << >>]}
        \cup {[kind |-> "ok", refs |-> r] : r \in RefLists}
        \* a malformed module: what it refers to is loaded before it is noticed
        \cup {[kind |-> "broken", refs |-> r] : r \in {x \in RefLists : Len(x) <= 1}}

Digits(i) == <<48 + i>>
Quoted(i) == <<QUOTE>> \o (IF i = 2 THEN <<46, 47>> ELSE << >>) \o Name(i) \o <<QUOTE>>
ImportText(j, i) == W_import \o <<SP, 112>> \o Digits(j) \o <<SP>> \o W_from \o <<SP>> \o Quoted(i) \o <<10>>
RequireText(i) == W_require \o <<40>> \o Quoted(i) \o <<41>>
(* odd modules are ES modules, even ones use require in the value; each has an item of its own *)
TextOf(f, m) ==
  LET refs == m.refs
      own == <<91, 93>>
      bad == IF m.kind = "broken" THEN <<93>> ELSE << >>
  IN IF f = 2
     THEN <<91>> \o own \o FoldLeft(LAMBDA acc, i : acc \o <<44>> \o RequireText(i), << >>, refs) \o <<93>> \o bad
     ELSE FoldLeft(LAMBDA acc, j : acc \o ImportText(j, refs[j]), << >>, [j \in 1..Len(refs) |-> j])
          \o W_export \o <<SP>> \o W_default \o <<91>> \o own
          \o FoldLeft(LAMBDA acc, j : acc \o <<44, 112>> \o Digits(j), << >>, [j \in 1..Len(refs) |-> j])
          \o <<93>> \o bad

VARIABLES mods, l, no, first, second,
          kept      \* the cache at the end of the first load
vars == <<mods, l, no, first, second, kept>>

Present == {f \in FilesUsed : mods[f].kind # "missing"}
FileSys(ms) == LET s == {f \in FilesUsed : ms[f].kind # "missing"} IN
  FoldLeft(LAMBDA fs, f : IF f \in s
             THEN Put(fs, Name(f), [ok |-> ms[f].kind # "unreadable", toks |-> Tokens(TextOf(f, ms[f]))]) ELSE fs,
           << >>, [i \in 1..NFiles |-> i])

(* what changes: nothing, or module number f becomes m *)
Updates(ms) == {[f |-> 0, m |-> ms[1]]}
               \cup (IF Changes THEN {[f |-> f, m |-> m] : f \in FilesUsed, m \in Mods} ELSE {})
Changed(ms, u) == IF u.f = 0 THEN ms ELSE [ms EXCEPT ![u.f] = u.m]
Init == \E ms \in [FilesUsed -> Mods], fault \in Faults, root2 \in FilesUsed, c \in (IF Changes THEN BOOLEAN ELSE {FALSE}) : \E u \in Updates(ms) :
          /\ u.f # 0 => ms[u.f] # u.m
          /\ mods = ms /\ no = 1 /\ kept = << >>
          /\ first = [root |-> Name(1), fault |-> fault, m |-> IF u.f = 0 THEN u.m ELSE ms[u.f]]
          /\ second = [root |-> Name(root2), fault |-> 0, u |-> u]
          /\ l = [Begin(FileSys(ms), fault, << >>, << >>, Name(1)) EXCEPT !.cycles = c]
Step1 == l.out = << >> /\ l' = LStep(l) /\ UNCHANGED <<mods, no, first, second, kept>>
Step2 == /\ l.out # << >> /\ no = 1
         /\ no' = 2
         /\ mods' = Changed(mods, second.u)
         /\ kept' = l.complete
         /\ l' = [Begin(IF second.u.f = 0 THEN l.files ELSE FileSys(mods'), second.fault, l.heap, l.complete, second.root)
                  EXCEPT !.cycles = l.cycles]
         /\ UNCHANGED <<first, second>>
Next == Step1 \/ Step2
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- every state --- *)
Stack == [i \in 1..Len(l.frames) |-> l.frames[i].path]
Distinct == \A i, j \in 1..Len(Stack) : Stack[i] = Stack[j] => i = j
ProgressIsStack == l.out = << >> => l.progress = {Stack[i] : i \in 1..Len(Stack)}
NothingInProgress == l.out # << >> => l.progress = {} /\ l.frames = << >>
NotComplete == \A q \in l.progress : no = 1 \/ q = second.root \/ q \notin DOMAIN l.complete
(* an imported module is read once: never again when it is complete *)
GoodReads(q) == Cardinality({i \in 2..Len(l.reads) : l.reads[i].p = q /\ l.reads[i].ok})
ReadOnce == \A q \in DOMAIN l.files : GoodReads(q) <= 1
(* a complete module stays what it is, whatever becomes of its file, and is not read again *)
Kept == /\ \A q \in DOMAIN kept : q \in DOMAIN l.complete /\ l.complete[q] = kept[q]
        /\ \A i \in 2..Len(l.reads) : l.reads[i].p \notin DOMAIN kept
Bounded == Len(l.frames) <= NFiles
Terminates == <>(no = 2 /\ l.out # << >>)

(* --- the result of a load without faults, without steps --- *)
Idx(q) == CHOOSE f \in FilesUsed : Name(f) = q
(* Visits the references of f in order; [err, done]: the first error and the modules that are complete *)
RECURSIVE Visit(_, _, _)
Visit(f, open, done) ==
  IF mods[f].kind \in {"missing", "unreadable"} THEN [err |-> "CannotReadFile", done |-> done]
  ELSE LET refs == mods[f].refs
           r == FoldLeft(LAMBDA acc, g :
                  IF acc.err # "" \/ g \in acc.done THEN acc
                  ELSE IF g \in open \cup {f} THEN [acc EXCEPT !.err = "CircularDependency"]
                  ELSE LET v == Visit(g, open \cup {f}, acc.done) IN
                       IF v.err # "" THEN v ELSE [v EXCEPT !.done = @ \cup {g}],
                  [err |-> "", done |-> done], refs)
       IN IF r.err = "" /\ mods[f].kind = "broken" THEN [r EXCEPT !.err = "UnexpectedToken"] ELSE r
Ended == no = 1 /\ l.out # << >> /\ first.fault = 0
ResultIs == Ended =>
  LET v == Visit(1, {}, {}) IN
  /\ IF v.err = "" THEN l.out[1].k = "ok" ELSE l.out[1] = [k |-> "err", e |-> v.err]
  /\ DOMAIN l.complete = {Name(f) : f \in v.done}

(* sharing: all uses of a module are one node *)
Item(v, j) == l.heap[v.n].items[j]
SharedOk == Ended /\ l.out[1].k = "ok" =>
  \A f \in FilesUsed : (Name(f) \in DOMAIN l.complete \/ f = 1) =>
    LET v == IF Name(f) \in DOMAIN l.complete THEN l.complete[Name(f)] ELSE l.out[1].v
    IN \A j \in 1..Len(mods[f].refs) : Item(v, j + 1) = l.complete[Name(mods[f].refs[j])]

(* a module as a file, or as a file that is not there *)
FileFor(f, m) == IF m.kind = "unreadable" THEN [p |-> Name(f), ok |-> FALSE]
                ELSE IF m.kind = "missing" THEN [p |-> Name(f), gone |-> TRUE]
                ELSE [p |-> Name(f), ok |-> TRUE, t |-> TextOf(f, m)]
Emit == (Emitting /\ ~l.cycles /\ no = 2 /\ l.out # << >>) =>
  PrintT("GEN " \o ToJson(
    [files |-> [f \in 1..NFiles |-> FileFor(f, IF f = second.u.f THEN first.m ELSE mods[f])],
     loads |-> <<[root |-> first.root, fault |-> first.fault, upd |-> << >>],
                 [root |-> second.root, fault |-> second.fault,
                  upd |-> IF second.u.f = 0 THEN << >> ELSE <<FileFor(second.u.f, second.u.m)>>]>>]))
=============================================================================
