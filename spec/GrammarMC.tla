----------------------------- MODULE GrammarMC ------------------------------
(***************************************************************************)
(* The grammar of modules, said without a machine: a sequence of tokens is *)
(* a module when it divides into statements and a result, and a value when *)
(* it divides into the parts of a value.  For every sequence Begins \o (up *)
(* to Bound words of Alphabet) the machine of module Parser accepts it     *)
(* exactly if it is a module, and gives the value, the dialect and the     *)
(* sharing that the grammar gives, which are unique.                       *)
(***************************************************************************)
EXTENDS Parser
CONSTANTS Begins, Alphabet, Bound
VARIABLES ts, left
vars == <<ts, left>>
Init == ts \in Begins /\ left = Bound
Next == left > 0 /\ left' = left - 1 /\ \E t \in Alphabet : ts' = Append(ts, t)
Spec == Init /\ [][Next]_vars

(* --- values: v is a sequence of tokens without line ends, k tells for each whether a word may be a
   property name there --- *)
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, << >>, ss)
Lit(t) == t.k \in {"num", "big", "str"} \/ IsId(t, W_null) \/ IsId(t, W_true) \/ IsId(t, W_false)
Name(t) == t.k = "id" /\ ~Lit(t) /\ ~IsId(t, W_require)
Sub(v, i, j) == SubSeq(v, i, j)

RECURSIVE Values(_, _), Items(_, _), Props(_, _)
(* the trees of a value *)
Values(v, k) ==
  LET n == Len(v) IN
  IF n = 0 THEN {}
  ELSE (IF n = 1 /\ Lit(v[1]) THEN {[k |-> "lit", t |-> v[1]]} ELSE {})
  \cup (IF n = 1 /\ Name(v[1]) THEN {[k |-> "name", s |-> v[1].s]} ELSE {})
  \cup (IF n = 4 /\ IsId(v[1], W_require) /\ IsP(v[2], 40) /\ v[3].k = "str" /\ IsP(v[4], 41)
        THEN {[k |-> "require", s |-> v[3].s]} ELSE {})
  \cup (IF n >= 2 /\ IsP(v[1], 91) /\ IsP(v[n], 93)
        THEN {[k |-> "arr", items |-> x] : x \in {<< >> : y \in {z \in {0} : n = 2}} \cup Items(Sub(v, 2, n - 1), Sub(k, 2, n - 1))}
        ELSE {})
  \cup (IF n >= 2 /\ IsP(v[1], 123) /\ IsP(v[n], 125)
        THEN {[k |-> "obj", props |-> x] : x \in {<< >> : y \in {z \in {0} : n = 2}} \cup Props(Sub(v, 2, n - 1), Sub(k, 2, n - 1))}
        ELSE {})
(* a comma-separated list with an optional last comma *)
Items(v, k) ==
  LET n == Len(v) IN
  {<<x>> : x \in Values(v, k)}
  \cup UNION {LET first == Values(Sub(v, 1, c - 1), Sub(k, 1, c - 1)) IN
              IF first = {} THEN {}
              ELSE IF c = n THEN {<<x>> : x \in first}
              ELSE {<<x>> \o y : x \in first, y \in Items(Sub(v, c + 1, n), Sub(k, c + 1, n))}
              : c \in {c \in 1..n : IsP(v[c], 44)}}
Prop(v, k) == IF Len(v) >= 3 /\ (v[1].k = "str" \/ (v[1].k = "id" /\ k[1])) /\ IsP(v[2], 58)
              THEN {<<v[1].s, x>> : x \in Values(Sub(v, 3, Len(v)), Sub(k, 3, Len(v)))} ELSE {}
Props(v, k) ==
  LET n == Len(v) IN
  {<<x>> : x \in Prop(v, k)}
  \cup UNION {LET first == Prop(Sub(v, 1, c - 1), Sub(k, 1, c - 1)) IN
              IF first = {} THEN {}
              ELSE IF c = n THEN {<<x>> : x \in first}
              ELSE {<<x>> \o y : x \in first, y \in Props(Sub(v, c + 1, n), Sub(k, c + 1, n))}
              : c \in {c \in 1..n : IsP(v[c], 44)}}

(* a word may be a property name once the text is more than JSON: after the word of a statement, or
   after a `require` *)
Beyond(s) == [i \in 1..Len(s) |-> \E j \in 1..(i - 1) :
                \E w \in {W_const, W_import, W_export, W_module, W_require} : IsId(s[j], w)]
ValueOf(s, i, j) ==       \* the trees of the value s[i..j]; line ends do not matter
  LET keep == SelectSeq([n \in 1..(j - i + 1) |-> i + n - 1], LAMBDA n : s[n].k # "nl")
      b == Beyond(s)
  IN Values([n \in 1..Len(keep) |-> s[keep[n]]], [n \in 1..Len(keep) |-> b[keep[n]]])
IsNl(s, i, j) == \A n \in i..j : s[n].k = "nl"

(* --- statements --- *)
Results(s, i) ==
  LET n == Len(s) IN
  {[dt |-> "", v |-> x] : x \in (IF i <= n /\ s[i].k = "nl" THEN {} ELSE ValueOf(s, i, n))}
  \cup (IF i + 1 <= n /\ IsId(s[i], W_export) /\ IsId(s[i + 1], W_default)
        THEN {[dt |-> "mjs", v |-> x] : x \in ValueOf(s, i + 2, n)} ELSE {})
  \cup (IF i + 3 <= n /\ IsId(s[i], W_module) /\ IsP(s[i + 1], 46) /\ IsId(s[i + 2], W_exports) /\ IsP(s[i + 3], 61)
        THEN {[dt |-> "cjs", v |-> x] : x \in ValueOf(s, i + 4, n)} ELSE {})
Statements(s, i, j) ==     \* the meanings of s[i..j] as a statement
  (IF j - i >= 3 /\ IsId(s[i], W_const) /\ s[i + 1].k = "id" /\ IsP(s[i + 2], 61) /\ s[j].k # "nl"
   THEN {[k |-> "const", s |-> s[i + 1].s, v |-> x] : x \in ValueOf(s, i + 3, j)} ELSE {})
  \cup (IF j - i = 3 /\ IsId(s[i], W_import) /\ s[i + 1].k = "id" /\ IsId(s[i + 2], W_from) /\ s[i + 3].k = "str"
        THEN {[k |-> "import", s |-> s[i + 1].s]} ELSE {})
(* the place where the next statement begins, when one ends at j: `;` and then line ends, or at least
   one line end.  All line ends are taken. *)
After(s, j) == LET from == IF j + 1 <= Len(s) /\ IsP(s[j + 1], 59) THEN j + 2 ELSE j + 1
                   stops == {n \in from..Len(s) : s[n].k # "nl"}
                   to == IF stops = {} THEN Len(s) + 1 ELSE CHOOSE n \in stops : \A m \in stops : n <= m
               IN IF to > j + 1 THEN {to} ELSE {}
RECURSIVE Modules(_, _)
Modules(s, i) ==
  {[stmts |-> << >>, r |-> x] : x \in Results(s, i)}
  \cup UNION {LET st == Statements(s, i, j) IN
              IF st = {} THEN {}
              ELSE UNION {{[stmts |-> <<a>> \o b.stmts, r |-> b.r] : a \in st, b \in Modules(s, n)} : n \in After(s, j)}
              : j \in i..Len(s)}
FirstLine(s) == CHOOSE n \in 1..(Len(s) + 1) : IsNl(s, 1, n - 1) /\ (n <= Len(s) => s[n].k # "nl")

(* --- meaning: trees to values, in the order of the text.  env: names to values; `ok` is false when a
   name is not known; `req`: is there a `require`? --- *)
M(v, heap, ok, req) == [v |-> v, heap |-> heap, ok |-> ok, req |-> req]
RECURSIVE Mean(_, _, _)
Mean(x, env, heap) ==
  CASE x.k = "lit" -> M(IF IsId(x.t, W_null) THEN VNull ELSE IF IsId(x.t, W_true) THEN VBool(TRUE)
                        ELSE IF IsId(x.t, W_false) THEN VBool(FALSE) ELSE x.t, heap, TRUE, FALSE)
    [] x.k = "name" -> IF x.s \in DOMAIN env THEN M(env[x.s], heap, TRUE, FALSE) ELSE M(VNull, heap, FALSE, FALSE)
    [] x.k = "require" -> M(VRef(Len(heap) + 1), Append(heap, [k |-> "arr", items |-> << >>]), TRUE, TRUE)
    [] x.k = "arr" ->
         LET r == FoldLeft(LAMBDA acc, y : LET m == Mean(y, env, acc.heap) IN
                             [items |-> Append(acc.items, m.v), heap |-> m.heap, ok |-> acc.ok /\ m.ok, req |-> acc.req \/ m.req],
                           [items |-> << >>, heap |-> heap, ok |-> TRUE, req |-> FALSE], x.items)
         IN M(VRef(Len(r.heap) + 1), Append(r.heap, [k |-> "arr", items |-> r.items]), r.ok, r.req)
    [] x.k = "obj" ->
         LET r == FoldLeft(LAMBDA acc, y : LET m == Mean(y[2], env, acc.heap) IN
                             [f |-> Put(acc.f, y[1], m.v), heap |-> m.heap, ok |-> acc.ok /\ m.ok, req |-> acc.req \/ m.req],
                           [f |-> << >>, heap |-> heap, ok |-> TRUE, req |-> FALSE], x.props)
             names == SetToSortSeq(DOMAIN r.f, Less)
         IN M(VRef(Len(r.heap) + 1), Append(r.heap, [k |-> "obj", props |-> [i \in 1..Len(names) |-> <<names[i], r.f[names[i]]>>]]), r.ok, r.req)
MeanModule(mod) ==
  LET step(acc, st) ==
        IF st.k = "import"
        THEN [acc EXCEPT !.env = Put(@, st.s, VRef(Len(acc.heap) + 1)), !.heap = Append(@, [k |-> "arr", items |-> << >>]), !.es = TRUE]
        ELSE LET m == Mean(st.v, acc.env, acc.heap) IN
             [env |-> Put(acc.env, st.s, m.v), heap |-> m.heap, ok |-> acc.ok /\ m.ok, es |-> acc.es, cjs |-> acc.cjs \/ m.req]
      a == FoldLeft(step, [env |-> << >>, heap |-> << >>, ok |-> TRUE, es |-> FALSE, cjs |-> FALSE], mod.stmts)
      m == Mean(mod.r.v, a.env, a.heap)
      es == a.es \/ mod.r.dt = "mjs"
      cjs == a.cjs \/ m.req \/ mod.r.dt = "cjs"
  IN [ok |-> a.ok /\ m.ok /\ ~(es /\ cjs), v |-> m.v, heap |-> m.heap,
      dt |-> IF es THEN "mjs" ELSE IF cjs THEN "cjs" ELSE IF mod.stmts # << >> THEN "djs" ELSE "json"]
Meanings(s) == {m \in {MeanModule(x) : x \in Modules(s, FirstLine(s))} : m.ok}

(* --- the machine --- *)
Full(q, h, t) ==
  LET r == PStep(q, h, t) IN
  IF Waits(r.p) THEN Res(Resume(r.p, VRef(Len(r.heap) + 1)), Append(r.heap, [k |-> "arr", items |-> << >>])) ELSE r
RunAll(s) == FoldLeft(LAMBDA acc, t : Full(acc.p, acc.heap, t), Res(PStart, << >>), s)
Agrees == LET r == RunAll(ts)
              m == Meanings(ts)
          IN IF r.p.m = "done" THEN m = {[ok |-> TRUE, v |-> r.p.val, heap |-> r.heap, dt |-> r.p.dt]} ELSE m = {}
(* a text that is in error stays in error: nothing that follows makes it a module *)

Tok(s) == Tokens(s)[1]
P1(c) == Tok(<<c>>)
Id(w) == Tok(w)
One == P1(55)
A == Id(<<97>>)
B == Tok(<<34, 98, 34>>)
ValueWords == {P1(91), P1(93), P1(123), P1(125), P1(44), P1(58), One, A, B}
StatementWords == {Id(W_const), Id(W_export), Id(W_default), Id(W_module), Id(W_exports), Id(W_import), Id(W_from),
                   Id(W_require), A, One, B, P1(61), P1(59), P1(46), P1(40), P1(41), P1(91), P1(93), NL}
ValueBegins == {<< >>, <<Id(W_const), A, P1(61), One, NL>>, <<Id(W_const), A, P1(61), P1(91), P1(93), P1(59), Id(W_export), Id(W_default)>>}
StatementBegins == {<< >>, <<Id(W_const), A, P1(61)>>, <<Id(W_const), A, P1(61), P1(91), P1(93)>>,
                    <<Id(W_const), A, P1(61), One, NL>>, <<Id(W_const), A, P1(61), One, P1(59)>>,
                    <<Id(W_export), Id(W_default)>>, <<Id(W_export), Id(W_default), P1(91)>>,
                    <<Id(W_import), A, Id(W_from), B>>, <<Id(W_import), A, Id(W_from), B, NL>>,
                    <<Id(W_import), A>>, <<Id(W_module), P1(46)>>,
                    <<Id(W_module), P1(46), Id(W_exports), P1(61)>>,
                    <<Id(W_const), A, P1(61), Id(W_require), P1(40), B, P1(41), NL>>,
                    <<Id(W_require), P1(40)>>, <<P1(91), Id(W_require), P1(40), B, P1(41), P1(44)>>,
                    <<P1(123), B, P1(58), Id(W_require), P1(40), B, P1(41), P1(44), A>>}
=============================================================================
