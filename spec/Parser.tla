------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The grammar of DJS modules as a state machine over tokens (C04, C05).   *)
(*                                                                         *)
(* Values are records: null, bool, num, big, str (the last three are the   *)
(* tokens that denote them) and ref, a node of the heap.  The heap is a    *)
(* sequence of nodes; a node is an array [k, items] or an object           *)
(* [k, props], where props are pairs <<key, value>> sorted by key.         *)
(*                                                                         *)
(* A step consumes one token.  When it needs another module, `imp` of the  *)
(* state is the name of the module and the machine waits for Resume.       *)
(***************************************************************************)
EXTENDS Tokenizer

(* --- words --- *)
W_const == <<99, 111, 110, 115, 116>>
W_export == <<101, 120, 112, 111, 114, 116>>
W_default == <<100, 101, 102, 97, 117, 108, 116>>
W_module == <<109, 111, 100, 117, 108, 101>>
W_exports == <<101, 120, 112, 111, 114, 116, 115>>
W_import == <<105, 109, 112, 111, 114, 116>>
W_from == <<102, 114, 111, 109>>
W_require == <<114, 101, 113, 117, 105, 114, 101>>
W_null == <<110, 117, 108, 108>>
W_true == <<116, 114, 117, 101>>
W_false == <<102, 97, 108, 115, 101>>

IsP(t, c) == t.k = "p" /\ t.c = c
IsId(t, w) == t.k = "id" /\ t.s = w

(* --- values --- *)
VNull == [k |-> "null"]
VBool(b) == [k |-> "bool", b |-> b]
VRef(n) == [k |-> "ref", n |-> n]

(* lexicographic order of sequences of numbers *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
Less(a, b) == LexLess(a, b, 1)

(* a property in its place; the last one of a name wins *)
Insert(props, key, val) ==
  LET lo == SelectSeq(props, LAMBDA q : Less(q[1], key))
      hi == SelectSeq(props, LAMBDA q : Less(key, q[1]))
  IN lo \o <<<<key, val>>>> \o hi

(* --- dialects --- *)
SetDjs(dt) == IF dt = "json" THEN "djs" ELSE dt
EsmOk(dt) == dt # "cjs"
CjsOk(dt) == dt # "mjs"

(* --- the machine ---
   m     root, export, module, moduleDot, exports, const, constId, import, importId, importFrom,
         value, wait, done, error
   v     in a value: start, arrBegin, arrValue, arrComma, objBegin, objKey, objColon, objValue,
         objComma, reqBegin, reqName, reqEnd
   tgt   what the value is for: module or const
   nl    may a statement begin here?
   stack the open arrays and objects, [k, items] or [k, props, key] *)
PStart == [m |-> "root", v |-> "start", tgt |-> "module", dt |-> "json", nl |-> TRUE, consts |-> << >>,
           stack |-> << >>, name |-> << >>, imp |-> << >>, val |-> VNull, e |-> ""]

Res(p, heap) == [p |-> p, heap |-> heap]
Fail(p, heap, e) == Res([p EXCEPT !.m = "error", !.e = e], heap)
To(p, heap, m) == Res([p EXCEPT !.m = m], heap)
Vs(p, heap, v) == Res([p EXCEPT !.v = v], heap)

Put(f, key, val) == (key :> val) @@ f

Define(p, name, val) == [p EXCEPT !.m = "root", !.v = "start", !.nl = FALSE, !.consts = Put(@, name, val)]

(* a complete value *)
Push1(p, heap, val) ==
  IF p.stack = << >>
  THEN Res(IF p.tgt = "const" THEN Define(p, p.name, val) ELSE [p EXCEPT !.m = "done", !.val = val], heap)
  ELSE LET n == Len(p.stack)
           top == p.stack[n]
       IN IF top.k = "arr"
          THEN Res([p EXCEPT !.v = "arrValue", !.stack[n].items = Append(@, val)], heap)
          ELSE Res([p EXCEPT !.v = "objValue", !.stack[n].props = Insert(@, top.key, val)], heap)

Open(p, heap, c, v) == Res([p EXCEPT !.v = v, !.stack = Append(@, c)], heap)
Close(p, heap) ==
  LET top == Last(p.stack)
      node == IF top.k = "arr" THEN [k |-> "arr", items |-> top.items] ELSE [k |-> "obj", props |-> top.props]
  IN Push1([p EXCEPT !.stack = Front(@)], Append(heap, node), VRef(Len(heap) + 1))

Value1(p, heap, t) ==
  CASE IsP(t, 91) -> Open(p, heap, [k |-> "arr", items |-> << >>], "arrBegin")
    [] IsP(t, 123) -> Open(p, heap, [k |-> "obj", props |-> << >>, key |-> << >>], "objBegin")
    [] t.k \in {"num", "big", "str"} -> Push1(p, heap, t)
    [] IsId(t, W_require) /\ CjsOk(p.dt) -> Res([p EXCEPT !.dt = "cjs", !.v = "reqBegin"], heap)
    [] IsId(t, W_null) -> Push1(p, heap, VNull)
    [] IsId(t, W_true) -> Push1(p, heap, VBool(TRUE))
    [] IsId(t, W_false) -> Push1(p, heap, VBool(FALSE))
    [] t.k = "id" /\ t.s \in DOMAIN p.consts -> Push1(p, heap, p.consts[t.s])
    [] OTHER -> Fail(p, heap, "UnexpectedToken")

KeyOk(p, t) == t.k = "str" \/ (t.k = "id" /\ p.dt # "json")
Key1(p, heap, t) == Res([p EXCEPT !.v = "objKey", !.stack[Len(p.stack)].key = t.s], heap)
Bad(p, heap) == Fail(p, heap, "UnexpectedToken")
Wait(p, heap, name, m) == Res([p EXCEPT !.m = m, !.imp = name], heap)

InValue(p, heap, t) ==
  CASE p.v \in {"start", "objColon"} -> Value1(p, heap, t)
    [] p.v \in {"arrBegin", "arrComma"} -> IF IsP(t, 93) THEN Close(p, heap) ELSE Value1(p, heap, t)
    [] p.v = "arrValue" -> IF IsP(t, 93) THEN Close(p, heap)
                           ELSE IF IsP(t, 44) THEN Vs(p, heap, "arrComma") ELSE Bad(p, heap)
    [] p.v \in {"objBegin", "objComma"} -> IF IsP(t, 125) THEN Close(p, heap)
                                           ELSE IF KeyOk(p, t) THEN Key1(p, heap, t) ELSE Bad(p, heap)
    [] p.v = "objKey" -> IF IsP(t, 58) THEN Vs(p, heap, "objColon") ELSE Bad(p, heap)
    [] p.v = "objValue" -> IF IsP(t, 125) THEN Close(p, heap)
                           ELSE IF IsP(t, 44) THEN Vs(p, heap, "objComma") ELSE Bad(p, heap)
    [] p.v = "reqBegin" -> IF IsP(t, 40) THEN Vs(p, heap, "reqName") ELSE Fail(p, heap, "WrongRequireStatement")
    [] p.v = "reqName" -> IF t.k = "str" THEN Wait(p, heap, t.s, "waitRequire")
                          ELSE Fail(p, heap, "WrongRequireStatement")
    [] p.v = "reqEnd" -> IF IsP(t, 41) THEN Push1(p, heap, p.val) ELSE Fail(p, heap, "WrongRequireStatement")

(* the machine goes on with the value of the module it waited for *)
Resume(p, val) ==
  IF p.m = "waitRequire" THEN [p EXCEPT !.m = "value", !.v = "reqEnd", !.val = val, !.imp = << >>]
  ELSE [Define(p, p.name, val) EXCEPT !.imp = << >>]

AtRoot(p, heap, t) ==
  CASE t.k = "nl" -> Res([p EXCEPT !.nl = TRUE], heap)
    [] IsP(t, 59) /\ ~p.nl -> Res([p EXCEPT !.nl = TRUE], heap)
    [] ~p.nl -> Fail(p, heap, "NewLineExpected")
    [] IsId(t, W_const) -> Res([p EXCEPT !.m = "const", !.dt = SetDjs(@)], heap)
    [] IsId(t, W_export) /\ EsmOk(p.dt) -> Res([p EXCEPT !.m = "export", !.dt = "mjs"], heap)
    [] IsId(t, W_import) /\ EsmOk(p.dt) -> Res([p EXCEPT !.m = "import", !.dt = "mjs"], heap)
    [] IsId(t, W_module) /\ CjsOk(p.dt) -> Res([p EXCEPT !.m = "module", !.dt = "cjs"], heap)
    [] OTHER -> InValue([p EXCEPT !.m = "value", !.v = "start", !.tgt = "module"], heap, t)

BeginValue(p, heap, tgt) == Res([p EXCEPT !.m = "value", !.v = "start", !.tgt = tgt], heap)
Expect(ok, r, p, heap, e) == IF ok THEN r ELSE Fail(p, heap, e)

PStep(p, heap, t) ==
  IF t.k = "nl" /\ p.m \in {"value", "done", "error"} THEN Res(p, heap)
  ELSE CASE p.m = "root" -> AtRoot(p, heap, t)
    [] p.m = "export" -> Expect(IsId(t, W_default), BeginValue(p, heap, "module"), p, heap, "WrongExportStatement")
    [] p.m = "module" -> Expect(IsP(t, DOT), To(p, heap, "moduleDot"), p, heap, "WrongExportStatement")
    [] p.m = "moduleDot" -> Expect(IsId(t, W_exports), To(p, heap, "exports"), p, heap, "WrongExportStatement")
    [] p.m = "exports" -> Expect(IsP(t, 61), BeginValue(p, heap, "module"), p, heap, "WrongExportStatement")
    [] p.m = "const" -> Expect(t.k = "id", Res([p EXCEPT !.m = "constId", !.name = t.s], heap), p, heap, "WrongConstStatement")
    [] p.m = "constId" -> Expect(IsP(t, 61), BeginValue(p, heap, "const"), p, heap, "WrongConstStatement")
    [] p.m = "import" -> Expect(t.k = "id", Res([p EXCEPT !.m = "importId", !.name = t.s], heap), p, heap, "WrongImportStatement")
    [] p.m = "importId" -> Expect(IsId(t, W_from), To(p, heap, "importFrom"), p, heap, "WrongImportStatement")
    [] p.m = "importFrom" -> Expect(t.k = "str", Wait(p, heap, t.s, "waitImport"), p, heap, "WrongImportStatement")
    [] p.m = "value" -> InValue(p, heap, t)
    [] p.m = "done" -> Fail(p, heap, "UnexpectedToken")
    [] p.m = "error" -> Res(p, heap)

Waits(p) == p.m \in {"waitRequire", "waitImport"}

(* the result at the end of the text *)
PEnd(p) == CASE p.m = "done" -> [k |-> "ok", dt |-> p.dt, v |-> p.val]
             [] p.m = "error" -> [k |-> "err", e |-> p.e]
             [] OTHER -> [k |-> "err", e |-> "UnexpectedEnd"]
=============================================================================
