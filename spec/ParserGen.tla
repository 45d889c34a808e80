----------------------------- MODULE ParserGen ------------------------------
(***************************************************************************)
(* The parser as a reactive system over words.  TLC explores its control   *)
(* states, checks that the machine is well behaved, and prints for every   *)
(* control state and every word a text that makes this step, and the same  *)
(* text completed to a whole module.  Every module name gives a new array. *)
(***************************************************************************)
EXTENDS Parser, Json
CONSTANTS MaxDepth, Pairs

Word(s) == [text |-> s, tok |-> Tokens(s)[1]]
Texts == { <<123>>, <<125>>, <<91>>, <<93>>, <<58>>, <<44>>, <<61>>, <<59>>, <<40>>, <<41>>, <<46>>,
           W_const, W_export, W_default, W_module, W_exports, W_import, W_from, W_require,
           W_null, W_true, <<97>>, <<98>>, <<55>>, <<45, 50, 110>>, <<34, 98, 34>>, <<34, 120, 34>>, <<35>> }
NLWord == [text |-> <<10>>, tok |-> NL]
Words == {Word(s) : s \in Texts} \cup {NLWord}

VARIABLES p, heap, hist
vars == <<p, heap, hist>>
Init == p = PStart /\ heap = << >> /\ hist = << >>

(* a step, after which a module that is asked for is there at once *)
Full(q, h, t) ==
  LET r == PStep(q, h, t) IN
  IF Waits(r.p) THEN Res(Resume(r.p, VRef(Len(r.heap) + 1)), Append(r.heap, [k |-> "arr", items |-> << >>])) ELSE r

Next == \E w \in Words : /\ p.m # "error"
                         /\ LET r == Full(p, heap, w.tok) IN p' = r.p /\ heap' = r.heap
                         /\ hist' = hist \o <<SP>> \o w.text
Spec == Init /\ [][Next]_vars

Bound == Len(p.stack) <= MaxDepth

Has(w) == w \in DOMAIN p.consts
Control == <<p.m, p.dt, p.nl, p.tgt, p.e,
             IF p.m = "value" THEN p.v ELSE "",
             [i \in 1..Len(p.stack) |-> p.stack[i].k],
             \* the last container: is it empty, does it have both keys?
             IF p.stack = << >> THEN 0
             ELSE IF Last(p.stack).k = "arr" THEN (IF Last(p.stack).items = << >> THEN 0 ELSE 1)
             ELSE Len(Last(p.stack).props),
             Has(<<97>>), Has(<<98>>)>>

(* a shortest completion of a state to a whole module *)
CloseOf(c) == IF c.k = "arr" THEN <<SP, 93>> ELSE <<SP, 125>>
CloseAll(s) == FoldRight(LAMBDA c, acc : acc \o CloseOf(c), s, << >>)
ValueEnd(q) ==
  (CASE q.v \in {"start", "objColon"} -> <<SP, 51>>
     [] q.v = "objKey" -> <<SP, 58, SP, 51>>
     [] q.v = "reqBegin" -> <<SP, 40, SP, 34, 120, 34, SP, 41>>
     [] q.v = "reqName" -> <<SP, 34, 120, 34, SP, 41>>
     [] q.v = "reqEnd" -> <<SP, 41>>
     [] OTHER -> << >>)
  \o CloseAll(q.stack)
RootEnd(q) == (IF q.nl THEN << >> ELSE <<10>>)
              \o <<91>> \o (IF <<97>> \in DOMAIN q.consts THEN <<97, 44, 97, 44>> ELSE << >>)
              \o (IF <<98>> \in DOMAIN q.consts THEN <<98, 44>> ELSE << >>) \o <<93>>
AName(q) == q.name
Later(q, name) == <<10>> \o <<91>> \o name \o <<44>> \o name \o <<93>>
Completion(q) ==
  CASE q.m \in {"done", "error"} -> << >>
    [] q.m = "root" -> RootEnd(q)
    [] q.m = "export" -> <<SP>> \o W_default \o <<SP, 91, 93>>
    [] q.m = "module" -> <<46>> \o W_exports \o <<61, 123, 125>>
    [] q.m = "moduleDot" -> W_exports \o <<61, 123, 125>>
    [] q.m = "exports" -> <<61, 123, 125>>
    [] q.m = "const" -> <<SP, 97, 61, 91, 93, 10, 91, 97, 44, 97, 93>>
    [] q.m = "constId" -> <<SP, 61, SP, 123, 125>> \o Later(q, q.name)
    [] q.m = "import" -> <<SP, 97, SP>> \o W_from \o <<SP, 34, 98, 34, 10, 91, 97, 44, 97, 93>>
    [] q.m = "importId" -> <<SP>> \o W_from \o <<SP, 34, 98, 34>> \o Later(q, q.name)
    [] q.m = "importFrom" -> <<SP, 34, 98, 34>> \o Later(q, q.name)
    [] q.m = "value" -> ValueEnd(q) \o (IF q.tgt = "const" THEN Later(q, q.name) ELSE << >>)

Modes2 == {"root", "export", "module", "moduleDot", "exports", "const", "constId", "import", "importId",
           "importFrom", "value", "done", "error"}
TypeOK == /\ p.m \in Modes2
          /\ p.dt \in {"json", "djs", "cjs", "mjs"}
          \* constants are there only after a statement, and a JSON text has none
          /\ p.dt = "json" => p.consts = << >>
          /\ p.m \in {"root", "done"} => p.stack = << >>
          /\ (p.m = "value" /\ p.v \in {"arrBegin", "arrValue", "arrComma", "objBegin", "objKey", "objColon",
                                        "objValue", "objComma"}) => p.stack # << >>
(* a dialect never changes back, ES and CommonJS statements do not mix *)
Order(dt) == CASE dt = "json" -> 0 [] dt = "djs" -> 1 [] OTHER -> 2
Monotone == [][Order(p.dt) <= Order(p'.dt) /\ (Order(p.dt) = 2 => p'.dt = p.dt)]_vars

(* every state that is not an error can be completed: the machine of the completed text is done *)
Finish(q, h, text) == FoldLeft(LAMBDA acc, t : Full(acc.p, acc.heap, t), Res(q, h), Tokens(text))
Completable == p.m # "error" =>
  LET r == Finish(p, heap, <<SP>> \o Completion(p)).p IN
  r.m = "done" \/ (r.m = "error" /\ p.m \in {"constId", "importId", "importFrom", "value"} /\ p.tgt # "")

G(text) == PrintT("GEN " \o ToJson(text))
Emit == p.m = "error" \/ \A w \in Words :
  LET r == Full(p, heap, w.tok)
      text == hist \o <<SP>> \o w.text
  IN /\ G(text)
     /\ r.p.m \in {"error", "done"} \/ G(text \o <<SP>> \o Completion(r.p))
     /\ ~Pairs \/ r.p.m = "error" \/ \A w2 \in Words :
          LET r2 == Full(r.p, r.heap, w2.tok) IN
          r2.p.m = "error" \/ G(text \o <<SP>> \o w2.text \o <<SP>> \o Completion(r2.p))
=============================================================================
