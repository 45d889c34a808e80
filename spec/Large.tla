------------------------------- MODULE Large --------------------------------
(***************************************************************************)
(* Families of module systems of any size n (C04, C05, C06).  A family has *)
(* files, made of pieces of text that are repeated with numbers in them,   *)
(* and the outcome of loading its root in closed form.  LargeMC checks the *)
(* outcomes against the machine of Loader; the harness loads the same      *)
(* files for large n, and LargeTrace compares.                             *)
(*                                                                         *)
(* A number in a piece is j*J + i*I + n*N + c (modulo m, or modulo n if m  *)
(* is -1; padded with zeros to w digits), for repetition i of the piece in *)
(* repetition j of what it is part of.  A size is a*n + b, written <<a,b>>.*)
(*                                                                         *)
(* A value is told by its arrays and objects in the order of a walk by     *)
(* levels: blocks of alike nodes with runs of alike items.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* --- pieces --- *)
Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Chars, x, x) : x \in 1..Len(Chars)} |->
             31 + (CHOOSE x \in 1..Len(Chars) : SubSeq(Chars, x, x) = c)]
Code(c) == IF c = "\n" THEN 10 ELSE IF c = "\t" THEN 9 ELSE CodeOf[c]
Codes(s) == [x \in 1..Len(s) |-> Code(SubSeq(s, x, x))]

Coef(j, i, n, c) == [j |-> j, i |-> i, n |-> n, c |-> c, m |-> 0, w |-> 0]
I == Coef(0, 1, 0, 0)
J == Coef(1, 0, 0, 0)
C(c) == Coef(0, 0, 0, c)
NC(c) == Coef(0, 0, 1, c)
Pad(h) == [h EXCEPT !.w = 7]
Mod(h, m) == [h EXCEPT !.m = m]
Plus(h, c) == [h EXCEPT !.c = @ + c]

One == <<0, 1>>
All == <<1, 0>>
(* a text in which every # is the next of the numbers hs, and every character after % is repeated: the next of hs
   is its size *)
T(s, hs) ==
  LET Flush(a) == IF a.cur = << >> THEN a.done ELSE Append(a.done, [s |-> a.cur, h |-> << >>, r |-> One])
      r == FoldLeft(LAMBDA a, c :
             IF a.rep THEN [done |-> Append(Flush(a), [s |-> <<c>>, h |-> << >>, r |-> hs[a.k]]), cur |-> << >>, k |-> a.k + 1, rep |-> FALSE]
             ELSE IF c = Code("%") THEN [a EXCEPT !.rep = TRUE]
             ELSE IF c = Code("#") THEN [done |-> Append(a.done, [s |-> a.cur, h |-> <<hs[a.k]>>, r |-> One]), cur |-> << >>, k |-> a.k + 1, rep |-> FALSE]
             ELSE [a EXCEPT !.cur = Append(@, c)],
             [done |-> << >>, cur |-> << >>, k |-> 1, rep |-> FALSE], Codes(s))
  IN Flush(r)

R(size, s, hs) == [n |-> size, t |-> T(s, hs)]
Text(s) == R(One, s, << >>)
File(size, p, hs, runs) == [n |-> size, p |-> T(p, hs), t |-> runs]
Root(runs) == <<File(One, "r", << >>, runs)>>

(* --- outcomes --- *)
Node(size, k, kids) == [n |-> size, k |-> k, kids |-> kids]
Item(size, v) == [n |-> size, key |-> << >>, v |-> v]
Prop(size, key, hs, v) == [n |-> size, key |-> T(key, hs), v |-> v]
Num(h) == [k |-> "num", h |-> h]
Big(h) == [k |-> "big", h |-> h]
Ref(h) == [k |-> "ref", h |-> h]
Str(s, hs) == [k |-> "str", t |-> T(s, hs)]
Null == [k |-> "null"]
Bool(b) == [k |-> "bool", b |-> b]
Arr(kids) == <<Node(One, "arr", kids)>>
Obj(kids) == <<Node(One, "obj", kids)>>

Read(size, p, hs, ok) == [n |-> size, p |-> T(p, hs), ok |-> ok]
RootRead == <<Read(One, "r", << >>, TRUE)>>

Ok(dt, nodes) == [k |-> "ok", dt |-> dt, v |-> Ref(C(0)), nodes |-> nodes]
OkLeaf(dt, v) == [k |-> "ok", dt |-> dt, v |-> v, nodes |-> << >>]
Err(e) == [k |-> "err", e |-> e]

(* max: the largest size, for recursion that takes stack or time *)
Fam(f, prop, max, files, out, reads, cache) ==
  [f |-> f, prop |-> prop, max |-> max, files |-> files, root |-> T("r", << >>), out |-> out, reads |-> reads, cache |-> cache]
Plain(f, prop, runs, out) == Fam(f, prop, 1000000, Root(runs), out, RootRead, << >>)
Deep(f, prop, runs, out) == Fam(f, prop, 20000, Root(runs), out, RootRead, << >>)

Json == <<
  Plain("arr", "C04", <<Text("["), R(All, "#,", <<I>>), Text("]")>>, Ok("json", Arr(<<Item(All, Num(I))>>))),
  Plain("arrLines", "C04", <<Text("[\n"), R(All, "  # ,\n", <<I>>), Text("  null\n]\n")>>,
        Ok("json", Arr(<<Item(All, Num(I)), Item(One, Null)>>))),
  Plain("strs", "C04", <<Text("[true"), R(All, ",\"s#\"", <<I>>), Text(",false]")>>,
        Ok("json", Arr(<<Item(One, Bool(TRUE)), Item(All, Str("s#", <<I>>)), Item(One, Bool(FALSE))>>))),
  Plain("bigs", "C04", <<Text("["), R(All, "#n,", <<I>>), Text("]")>>, Ok("json", Arr(<<Item(All, Big(I))>>))),
  Plain("nulls", "C04", <<Text("["), R(All, "null,", << >>), R(All, "true,", << >>), R(All, "\"\",", << >>), Text("]")>>,
        Ok("json", Arr(<<Item(All, Null), Item(All, Bool(TRUE)), Item(All, Str("", << >>))>>))),
  Plain("obj", "C04", <<Text("{"), R(All, "\"k#\":#,", <<Pad(I), I>>), Text("}")>>,
        Ok("json", Obj(<<Prop(All, "k#", <<Pad(I)>>, Num(I))>>))),
  Plain("objDown", "C04", <<Text("{"), R(All, "\"k#\":#,", <<Pad(Coef(0, -1, 1, -1)), I>>), Text("}")>>,
        Ok("json", Obj(<<Prop(All, "k#", <<Pad(I)>>, Num(Coef(0, -1, 1, -1)))>>))),
  Plain("objMixed", "C04", <<Text("{"), R(All, "\"k#\":#,", <<Pad(Mod(Coef(0, 7919, 0, 3), -1)), Mod(Coef(0, 7919, 0, 3), -1)>>), Text("}")>>,
        Ok("json", Obj(<<Prop(All, "k#", <<Pad(I)>>, Num(I))>>))),
  Plain("again", "C04", <<Text("{"), R(<<10, 0>>, "\"k#\":#,", <<Mod(I, 10), I>>), Text("}")>>,
        Ok("json", Obj(<<Prop(<<0, 10>>, "k#", <<I>>, Num(Coef(0, 1, 10, -10)))>>))),
  Plain("rows", "C04", <<Text("["), R(All, "[#,{\"a\":#}],", <<I, I>>), Text("]")>>,
        Ok("json", Arr(<<Item(All, Ref(Plus(I, 1)))>>)
                   \o <<Node(All, "arr", <<Item(One, Num(J)), Item(One, Ref(Coef(1, 0, 1, 1)))>>),
                        Node(All, "obj", <<Prop(One, "a", << >>, Num(J))>>)>>)),
  Plain("empties", "C04", <<Text("["), R(All, "[],", << >>), R(All, "{},", << >>), Text("]")>>,
        Ok("json", Arr(<<Item(<<2, 0>>, Ref(Plus(I, 1)))>>) \o <<Node(All, "arr", << >>), Node(All, "obj", << >>)>>)),
  Deep("nest", "C04", <<R(All, "[", << >>), Text("7"), R(All, "]", << >>)>>,
       Ok("json", <<Node(<<1, -1>>, "arr", <<Item(One, Ref(Plus(J, 1)))>>), Node(One, "arr", <<Item(One, Num(C(7)))>>)>>)),
  Deep("nestObj", "C04", <<R(All, "{\"k#\":", <<I>>), Text("null"), R(All, "}", << >>)>>,
       Ok("json", <<Node(<<1, -1>>, "obj", <<Prop(One, "k#", <<J>>, Ref(Plus(J, 1)))>>),
                    Node(One, "obj", <<Prop(One, "k#", <<NC(-1)>>, Null)>>)>>)),
  Plain("lines", "C04", <<R(All, "\n", << >>), Text("[1"), R(All, "\n", << >>), Text(",2]"), R(All, " \n", << >>)>>,
        Ok("json", Arr(<<Item(<<0, 2>>, Num(Plus(I, 1)))>>))),
  Plain("notes", "C04", <<R(All, "// #\n/* # */", <<I, I>>), Text("[1]")>>, Ok("json", Arr(<<Item(One, Num(C(1)))>>))),
  Plain("open", "C04", <<Text("["), R(All, "#,", <<I>>)>>, Err("UnexpectedEnd")),
  Plain("openObj", "C04", <<Text("{"), R(All, "\"k#\":#,", <<I, I>>)>>, Err("UnexpectedEnd")),
  Plain("wrongEnd", "C04", <<Text("["), R(All, "#,", <<I>>), Text("}")>>, Err("UnexpectedToken")),
  Plain("noComma", "C04", <<Text("{"), R(All, "\"k#\":#,", <<I, I>>), Text("\"a\":1 \"b\":2}")>>, Err("UnexpectedToken")),
  Plain("more", "C04", <<Text("["), R(All, "#,", <<I>>), Text("]"), R(All, "\n", << >>), Text("[]")>>, Err("UnexpectedToken")),
  Plain("longKeys", "C04", <<R(One, "{\"%kz\":3,\"%k\":2,\"%k\":1,\"b%ka\":0,\"%k\":1}", <<All, <<1, 1>>, All, All, All>>)>>,
        Ok("json", Obj(<<Prop(One, "b%ka", <<All>>, Num(C(0))), Prop(One, "%k", <<All>>, Num(C(1))),
                         Prop(One, "%k", <<<<1, 1>>>>, Num(C(2))), Prop(One, "%kz", <<All>>, Num(C(3)))>>))),
  Plain("longStrs", "C04", <<R(One, "[\"%a\",\"\",\"x%by\",\"% \",\"%-z\"]", <<All, All, <<2, 0>>, <<1, 1>>>>)>>,
        Ok("json", Arr(<<Item(One, Str("%a", <<All>>)), Item(One, Str("", << >>)), Item(One, Str("x%by", <<All>>)),
                         Item(One, Str("% ", <<<<2, 0>>>>)), Item(One, Str("%-z", <<<<1, 1>>>>))>>))),
  Plain("escapes", "C04", <<Text("[\"x"), R(All, "\\u0041", << >>), Text("\",\""), R(All, "\\n", << >>), Text("\",{\""), R(All, "\\\\", << >>), Text("\":1}]")>>,
        Ok("json", Arr(<<Item(One, Str("x%A", <<All>>)), Item(One, Str("%\n", <<All>>)), Item(One, Ref(C(1)))>>)
                   \o Obj(<<Prop(One, "%\\", <<All>>, Num(C(1)))>>))),
  Plain("blanks", "C04", <<R(One, "% [% 1%\t,% 2]% ", <<All, All, All, All, All>>)>>, Ok("json", Arr(<<Item(<<0, 2>>, Num(Plus(I, 1)))>>))),
  Plain("longNotes", "C04", <<R(One, "/*%x*/[/*%**/1,//%y\n2/*%\n*/]//% ", <<All, All, All, All, All>>)>>, Ok("json", Arr(<<Item(<<0, 2>>, Num(Plus(I, 1)))>>))),
  Fam("zeros", "C04", 2000, Root(<<R(One, "[1.%0,2e%0,3.%0e-0,4n]", <<All, All, All>>)>>),
      Ok("json", Arr(<<Item(<<0, 3>>, Num(Plus(I, 1))), Item(One, Big(C(4)))>>)), RootRead, << >>),
  Plain("longWord", "C04", <<R(One, "[%n]", <<All>>)>>, Err("UnexpectedToken")),
  Plain("openStr", "C04", <<R(One, "[\"%n]", <<All>>)>>, Err("UnexpectedToken")),
  Deep("notClosed", "C04", <<R(All, "[", << >>), R(<<1, -1>>, "]", << >>)>>, Err("UnexpectedEnd")),
  Deep("closedTwice", "C04", <<R(All, "{\"a\":", << >>), Text("1"), R(<<1, 1>>, "}", << >>)>>, Err("UnexpectedToken"))
>>

Consts == <<
  Plain("consts", "C05", <<R(All, "const c#=#\n", <<I, I>>), Text("["), R(All, "c#,", <<I>>), Text("]")>>,
        Ok("djs", Arr(<<Item(All, Num(I))>>))),
  Plain("constsDown", "C05", <<R(All, "const c#=[#];", <<I, I>>), Text("export default ["), R(All, "c#,", <<Coef(0, -1, 1, -1)>>), Text("]")>>,
        Ok("mjs", Arr(<<Item(All, Ref(Plus(I, 1)))>>) \o <<Node(All, "arr", <<Item(One, Num(Coef(-1, 0, 1, -1)))>>)>>)),
  Deep("constChain", "C05", <<Text("const c0=[]\n"), R(<<1, -1>>, "const c#={a:c#,b:c#}\n", <<Plus(I, 1), I, I>>), R(One, "module.exports=c#", <<NC(-1)>>)>>,
       Ok("cjs", <<Node(<<1, -1>>, "obj", <<Prop(One, "a", << >>, Ref(Plus(J, 1))), Prop(One, "b", << >>, Ref(Plus(J, 1)))>>),
                   Node(One, "arr", << >>)>>)),
  Plain("redefined", "C05", <<R(All, "const c=[#]\n", <<I>>), Text("[c,c]")>>,
        Ok("djs", Arr(<<Item(<<0, 2>>, Ref(C(1)))>>) \o <<Node(One, "arr", <<Item(One, Num(NC(-1)))>>)>>)),
  Plain("counted", "C05", <<Text("const c=[]\n"), R(All, "const c=c\n", << >>), Text("[c,c]")>>,
        Ok("djs", Arr(<<Item(<<0, 2>>, Ref(C(1)))>>) \o <<Node(One, "arr", << >>)>>)),
  Plain("used", "C05", <<Text("const c=[1]\nexport default ["), R(All, "c,", << >>), Text("]")>>,
        Ok("mjs", Arr(<<Item(All, Ref(C(1)))>>) \o <<Node(One, "arr", <<Item(One, Num(C(1)))>>)>>)),
  Plain("idKeys", "C05", <<Text("const z={}\nmodule.exports={"), R(All, "k#:z,", <<Pad(I)>>), Text("}")>>,
        Ok("cjs", Obj(<<Prop(All, "k#", <<Pad(I)>>, Ref(C(1)))>>) \o <<Node(One, "obj", << >>)>>)),
  Plain("longName", "C05", <<Text("const a"), R(All, "b", << >>), Text("=1\nconst a"), R(<<1, 1>>, "b", << >>), Text("=2\n[a"), R(All, "b", << >>),
                             Text(",a"), R(<<1, 1>>, "b", << >>), Text("]")>>,
        Ok("djs", Arr(<<Item(<<0, 2>>, Num(Plus(I, 1)))>>))),
  Plain("longOther", "C05", <<Text("const a"), R(All, "b", << >>), Text("=1\n[a"), R(<<1, -1>>, "b", << >>), Text("]")>>, Err("UnexpectedToken")),
  Plain("longIdKeys", "C05", <<R(One, "const %x=[1]\n{%x:%x,%xy:2,%x:3}", <<All, <<1, 1>>, All, All, <<1, 2>>>>)>>,
        Ok("djs", Obj(<<Prop(One, "%x", <<<<1, 1>>>>, Ref(C(1))), Prop(One, "%x", <<<<1, 2>>>>, Num(C(3))), Prop(One, "%xy", <<All>>, Num(C(2)))>>)
                  \o Arr(<<Item(One, Num(C(1)))>>))),
  Plain("constNotes", "C05", <<R(One, "/*%\n*/const /*% */a=/*%=*/[1]//% \nmodule/*%.*/.% exports% =% a", <<All, All, All, All, All, All, All, All>>)>>,
        Ok("cjs", Arr(<<Item(One, Num(C(1)))>>))),
  Plain("longExport", "C05", <<R(One, "export %default 1", <<<<1, 0>>>>)>>, Err("WrongExportStatement")),
  Plain("unknown", "C05", <<R(All, "const c#=#\n", <<I, I>>), R(One, "c#", <<NC(0)>>)>>, Err("UnexpectedToken")),
  Plain("last", "C05", <<R(All, "const c#=#\n", <<I, I>>), R(One, "c#", <<NC(-1)>>)>>, OkLeaf("djs", Num(NC(-1)))),
  Plain("first", "C05", <<R(All, "const c#=#\n", <<I, I>>), Text("c0")>>, OkLeaf("djs", Num(C(0)))),
  Plain("noLine", "C05", <<R(All, "const c#=#;", <<I, I>>), Text("const d=1 [c0]")>>, Err("NewLineExpected")),
  Plain("noName", "C05", <<R(All, "const c#=#\n", <<I, I>>), Text("const =1")>>, Err("WrongConstStatement")),
  Plain("noConst", "C05", <<R(All, "const c#=#\n", <<I, I>>)>>, Err("UnexpectedEnd")),
  Plain("semicolons", "C05", <<R(All, "const c#=#;\n\n", <<I, I>>), Text("c1")>>, OkLeaf("djs", Num(C(1)))),
  Plain("late", "C05", <<R(All, "const c#=#\n", <<I, I>>), Text("export default [c2];")>>, Err("UnexpectedToken")),
  Plain("lateLines", "C05", <<R(All, "const c#=#\n", <<I, I>>), Text("export default [c2]"), R(All, "\n", << >>)>>,
        Ok("mjs", Arr(<<Item(One, Num(C(2)))>>)))
>>

(* --- systems of modules --- *)
Mods(body) == File(All, "m#", <<J>>, body)
Sys(f, files, out, reads, cache) == Fam(f, "C06", 1000000, files, out, reads, cache)
Chain(f, files, out, reads, cache) == Fam(f, "C06", 1000, files, out, reads, cache)
Each == Read(All, "m#", <<I>>, TRUE)
In(size, p, hs) == [n |-> size, p |-> T(p, hs)]
Numbered == Node(All, "arr", <<Item(One, Num(J))>>)

Systems == <<
  Sys("wide", Root(<<R(All, "import m# from \"m#\"\n", <<I, I>>), Text("export default ["), R(All, "m#,", <<I>>), Text("]")>>)
              \o <<Mods(<<R(One, "export default [#]", <<J>>)>>)>>,
      Ok("mjs", Arr(<<Item(All, Ref(Plus(I, 1)))>>) \o <<Numbered>>),
      RootRead \o <<Each>>, <<In(All, "m#", <<I>>)>>),
  Sys("wideCjs", Root(<<Text("module.exports=["), R(All, "require(\"m#\"),", <<I>>), R(All, "require(\"./m#\"),", <<I>>), Text("]")>>)
                 \o <<Mods(<<R(One, "module.exports=[#]", <<J>>)>>)>>,
      Ok("cjs", Arr(<<Item(All, Ref(Plus(I, 1))), Item(All, Ref(Plus(I, 1)))>>) \o <<Numbered>>),
      RootRead \o <<Each>>, <<In(All, "m#", <<I>>)>>),
  Sys("same", Root(<<R(All, "import m# from \"x\"\n", <<I>>), Text("export default ["), R(All, "m#,", <<I>>), Text("]")>>)
              \o <<File(One, "x", << >>, <<Text("{}")>>)>>,
      Ok("mjs", Arr(<<Item(All, Ref(C(1)))>>) \o <<Node(One, "obj", << >>)>>),
      RootRead \o <<Read(One, "x", << >>, TRUE)>>, <<In(One, "x", << >>)>>),
  Sys("ways", Root(<<R(All, "import m# from \"d#/./../x\"\n", <<I, I>>), Text("export default ["), R(All, "m#,", <<I>>), Text("]")>>)
              \o <<File(One, "x", << >>, <<Text("[0]")>>)>>,
      Ok("mjs", Arr(<<Item(All, Ref(C(1)))>>) \o <<Node(One, "arr", <<Item(One, Num(C(0)))>>)>>),
      RootRead \o <<Read(One, "x", << >>, TRUE)>>, <<In(One, "x", << >>)>>),
  Sys("longPaths", Root(<<Text("import a from \""), R(All, "./", << >>), Text("x\"\nimport b from \""), R(All, "y/../", << >>),
                          R(One, "x\"\nimport c from \"%/\"\nimport d from \"%ab\"\nexport default [a,b,c,d]", <<All, All>>)>>)
                   \o <<File(One, "x", << >>, <<Text("[0]")>>), File(One, "", << >>, <<Text("[1]")>>), File(One, "%ab", <<All>>, <<Text("[2]")>>)>>,
      Ok("mjs", Arr(<<Item(<<0, 2>>, Ref(C(1))), Item(<<0, 2>>, Ref(Plus(I, 2)))>>) \o <<Node(<<0, 3>>, "arr", <<Item(One, Num(J))>>)>>),
      RootRead \o <<Read(One, "x", << >>, TRUE), Read(One, "", << >>, TRUE), Read(One, "%ab", <<All>>, TRUE)>>,
      <<In(One, "", << >>), In(One, "%ab", <<All>>), In(One, "x", << >>)>>),
  Sys("diamond", Root(<<R(All, "import m# from \"m#\"\n", <<I, I>>), Text("export default ["), R(All, "m#,", <<I>>), Text("]")>>)
                 \o <<Mods(<<Text("import x from \"x\"\nexport default [x,"), R(One, "#]", <<J>>)>>), File(One, "x", << >>, <<Text("[]")>>)>>,
      Ok("mjs", Arr(<<Item(All, Ref(Plus(I, 1)))>>)
                \o <<Node(All, "arr", <<Item(One, Ref(NC(1))), Item(One, Num(J))>>), Node(One, "arr", << >>)>>),
      RootRead \o <<Read(One, "m#", <<C(0)>>, TRUE), Read(One, "x", << >>, TRUE), Read(<<1, -1>>, "m#", <<Plus(I, 1)>>, TRUE)>>,
      <<In(All, "m#", <<I>>), In(One, "x", << >>)>>),
  Sys("folders", Root(<<R(All, "import m# from \"d/e#/m\"\n", <<I, I>>), Text("export default ["), R(All, "m#,", <<I>>), Text("]")>>)
                 \o <<File(All, "d/e#/m", <<J>>, <<R(One, "import y from \"../y\"\nexport default [y,#]", <<J>>)>>),
                      File(One, "d/y", << >>, <<Text("[0]")>>)>>,
      Ok("mjs", Arr(<<Item(All, Ref(Plus(I, 1)))>>)
                \o <<Node(All, "arr", <<Item(One, Ref(NC(1))), Item(One, Num(J))>>), Node(One, "arr", <<Item(One, Num(C(0)))>>)>>),
      RootRead \o <<Read(One, "d/e#/m", <<C(0)>>, TRUE), Read(One, "d/y", << >>, TRUE), Read(<<1, -1>>, "d/e#/m", <<Plus(I, 1)>>, TRUE)>>,
      <<In(All, "d/e#/m", <<I>>), In(One, "d/y", << >>)>>),
  Sys("missing", Root(<<R(All, "import m# from \"m#\"\n", <<I, I>>), R(One, "import m from \"m#\"\nexport default m", <<NC(0)>>)>>)
                 \o <<Mods(<<R(One, "#", <<J>>)>>)>>,
      Err("CannotReadFile"), RootRead \o <<Each, Read(One, "m#", <<NC(0)>>, FALSE)>>, <<In(All, "m#", <<I>>)>>),
  Sys("broken", Root(<<R(All, "import m# from \"m#\"\n", <<I, I>>), Text("import m from \"x\"\nexport default m")>>)
                \o <<Mods(<<R(One, "#", <<J>>)>>), File(One, "x", << >>, <<Text("[1"), R(All, ",", << >>)>>)>>,
      Err("UnexpectedToken"), RootRead \o <<Each, Read(One, "x", << >>, TRUE)>>, <<In(All, "m#", <<I>>)>>),
  Chain("chain", Root(<<Text("import m from \"m0\"\nexport default [m]")>>)
                 \o <<File(<<1, -1>>, "m#", <<J>>, <<R(One, "import m from \"m#\"\nexport default [m]", <<Plus(J, 1)>>)>>),
                      File(One, "m#", <<NC(-1)>>, <<Text("[8]")>>)>>,
        Ok("mjs", <<Node(All, "arr", <<Item(One, Ref(Plus(J, 1)))>>), Node(One, "arr", <<Item(One, Num(C(8)))>>)>>),
        RootRead \o <<Each>>, <<In(All, "m#", <<I>>)>>),
  Chain("chainCjs", Root(<<Text("module.exports={a:require(\"m0\"),b:require(\"m0\")}")>>)
                    \o <<File(<<1, -1>>, "m#", <<J>>, <<R(One, "module.exports={a:require(\"m#\"),b:require(\"m#\")}", <<Plus(J, 1), Plus(J, 1)>>)>>),
                         File(One, "m#", <<NC(-1)>>, <<Text("{}")>>)>>,
        Ok("cjs", <<Node(All, "obj", <<Prop(One, "a", << >>, Ref(Plus(J, 1))), Prop(One, "b", << >>, Ref(Plus(J, 1)))>>), Node(One, "obj", << >>)>>),
        RootRead \o <<Each>>, <<In(All, "m#", <<I>>)>>),
  Chain("cycle", Root(<<Text("import m from \"m0\"\nexport default [m]")>>)
                 \o <<File(All, "m#", <<J>>, <<R(One, "import m from \"m#\"\nexport default [m]", <<Mod(Plus(J, 1), -1)>>)>>)>>,
        Err("CircularDependency"), RootRead \o <<Each>>, << >>),
  Chain("cycleRoot", Root(<<Text("import m from \"m0\"\nexport default [m]")>>)
                     \o <<File(<<1, -1>>, "m#", <<J>>, <<R(One, "import m from \"m#\"\nexport default [m]", <<Plus(J, 1)>>)>>),
                          File(One, "m#", <<NC(-1)>>, <<Text("import m from \"./r\"\n1")>>)>>,
        Err("CircularDependency"), RootRead \o <<Each>>, << >>),
  Chain("chainMissing", Root(<<Text("module.exports=require(\"m0\")")>>)
                        \o <<File(All, "m#", <<J>>, <<R(One, "module.exports=require(\"m#\")", <<Plus(J, 1)>>)>>)>>,
        Err("CannotReadFile"), RootRead \o <<Each, Read(One, "m#", <<NC(0)>>, FALSE)>>, << >>),
  Chain("nextTwo", Root(<<Text("module.exports=[require(\"m0\")]")>>)
                   \o <<File(All, "m#", <<J>>, <<R(One, "module.exports=[require(\"m#\"),require(\"m#\")]", <<Plus(J, 1), Plus(J, 2)>>)>>),
                        File(<<0, 2>>, "m#", <<Coef(1, 0, 1, 0)>>, <<Text("module.exports=[9]")>>)>>,
        Ok("cjs", Arr(<<Item(One, Ref(C(1)))>>) \o <<Node(All, "arr", <<Item(<<0, 2>>, Ref(Coef(1, 1, 0, 2)))>>),
                                                   Node(<<0, 2>>, "arr", <<Item(One, Num(C(9)))>>)>>),
        RootRead \o <<Read(<<1, 2>>, "m#", <<I>>, TRUE)>>, <<In(<<1, 2>>, "m#", <<I>>)>>),
  Chain("chainBroken", Root(<<Text("import m from \"m0\"\nexport default [m]")>>)
                       \o <<File(<<1, -1>>, "m#", <<J>>, <<R(One, "import m from \"m#\"\nexport default [m]", <<Plus(J, 1)>>)>>),
                            File(One, "m#", <<NC(-1)>>, <<Text("const a=1 2")>>)>>,
        Err("NewLineExpected"), RootRead \o <<Each>>, << >>)
>>

Families == Json \o Consts \o Systems
=============================================================================
