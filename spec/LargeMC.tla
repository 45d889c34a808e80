------------------------------ MODULE LargeMC -------------------------------
(***************************************************************************)
(* The outcomes of Large for small sizes: the files are written out and    *)
(* loaded by the machine of Loader, step by step; what it finds must be    *)
(* what the closed form tells.  Prints the families for the harness.       *)
(***************************************************************************)
EXTENDS Loader, Json
CONSTANT MinN, MaxN
L == INSTANCE Large

VARIABLES fam, n, l
vars == <<fam, n, l>>
F == L!Families[fam]

(* --- writing out --- *)
Size(s) == s[1] * n + s[2]
RECURSIVE Dec(_)
Dec(x) == IF x < 10 THEN <<48 + x>> ELSE Dec(x \div 10) \o <<48 + (x % 10)>>
Zeros(k) == [x \in 1..k |-> 48]
At(h, j, i) == LET x == h.j * j + h.i * i + h.n * n + h.c
               IN IF h.m = 0 THEN x ELSE IF h.m = -1 THEN x % n ELSE x % h.m
Digits(h, j, i) == LET d == Dec(At(h, j, i)) IN (IF Len(d) < h.w THEN Zeros(h.w - Len(d)) ELSE << >>) \o d
Write(piece, j, i) ==
  FoldLeft(LAMBDA a, x : a \o (IF x.r = L!One THEN x.s ELSE [y \in 1..Size(x.r) |-> x.s[1]])
                            \o (IF x.h = << >> THEN << >> ELSE Digits(x.h[1], j, i)), << >>, piece)
From0(k) == [x \in 1..k |-> x - 1]
WriteRuns(runs, j) ==
  FoldLeft(LAMBDA a, r : a \o FoldLeft(LAMBDA b, i : b \o Write(r.t, j, i), << >>, From0(Size(r.n))), << >>, runs)
Files == FoldLeft(LAMBDA fs, x :
           FoldLeft(LAMBDA gs, j : Put(gs, Write(x.p, j, j), [ok |-> TRUE, toks |-> Tokens(WriteRuns(x.t, j))]),
                    fs, From0(Size(x.n))), << >>, F.files)

(* --- the closed form, written out --- *)
OutV(v, j, i) ==
  CASE v.k \in {"num", "big", "ref"} -> [k |-> v.k, n |-> At(v.h, j, i)]
    [] v.k = "str" -> [k |-> "str", s |-> Write(v.t, j, i)]
    [] OTHER -> v
Items(kids, j) ==
  FoldLeft(LAMBDA a, r : a \o [x \in 1..Size(r.n) |-> [key |-> Write(r.key, j, x - 1), v |-> OutV(r.v, j, x - 1)]], << >>, kids)
Nodes == FoldLeft(LAMBDA a, b : a \o [x \in 1..Size(b.n) |-> [k |-> b.k, items |-> Items(b.kids, x - 1)]], << >>, F.out.nodes)
Reads == FoldLeft(LAMBDA a, r : a \o [x \in 1..Size(r.n) |-> [p |-> Write(r.p, x - 1, x - 1), ok |-> r.ok]], << >>, F.reads)
Cached == UNION {{Write(F.cache[c].p, x - 1, x - 1) : x \in 1..Size(F.cache[c].n)} : c \in 1..Len(F.cache)}

(* --- what was loaded, in a walk by levels --- *)
Kids(node) == IF node.k = "arr" THEN node.items ELSE [x \in 1..Len(node.props) |-> node.props[x][2]]
RECURSIVE Walk2(_, _)
Walk2(queue, at) ==
  IF at > Len(queue) THEN queue
  ELSE Walk2(FoldLeft(LAMBDA q, v : IF v.k # "ref" \/ Contains(q, v.n) THEN q ELSE Append(q, v.n), queue, Kids(l.heap[queue[at]])), at + 1)
Levels(v) == IF v.k # "ref" THEN << >> ELSE Walk2(<<v.n>>, 1)
IntOf(ds) == FoldLeft(LAMBDA a, d : 10 * a + d, 0, ds)
Told(order, v) ==
  CASE v.k = "ref" -> [k |-> "ref", n |-> SelectInSeq(order, LAMBDA x : x = v.n) - 1]
    [] v.k = "big" -> [k |-> v.k, n |-> IntOf(v.ds)]
    (* the numbers here are whole *)
    [] v.k = "num" -> LET d == SubSeq(v.ds, 1, Len(v.ds) - v.fe) IN
                      [k |-> IF IntOf(v.e) = 0 /\ v.ds = d \o [x \in 1..v.fe |-> 0] THEN v.k ELSE "other", n |-> IntOf(d)]
    [] OTHER -> v
ToldNode(order, node) ==
  [k |-> node.k,
   items |-> IF node.k = "arr" THEN [x \in 1..Len(node.items) |-> [key |-> << >>, v |-> Told(order, node.items[x])]]
             ELSE [x \in 1..Len(node.props) |-> [key |-> node.props[x][1], v |-> Told(order, node.props[x][2])]]]

Init == /\ fam \in 1..Len(L!Families) /\ n \in MinN..MaxN
        /\ l = Begin(Files, 0, << >>, << >>, Write(F.root, 0, 0))
Next == l.out = << >> /\ l' = LStep(l) /\ UNCHANGED <<fam, n>>
Spec == Init /\ [][Next]_vars

OutcomeRight == l.out # << >> =>
  LET o == l.out[1]  w == F.out IN
  /\ o.k = w.k
  /\ o.k = "err" => o.e = w.e
  /\ o.k = "ok" => LET order == Levels(o.v) IN
                   /\ o.dt = w.dt
                   /\ Told(order, o.v) = OutV(w.v, 0, 0)
                   /\ [x \in 1..Len(order) |-> ToldNode(order, l.heap[order[x]])] = Nodes
  /\ l.reads = Reads
  /\ DOMAIN l.complete = Cached
  /\ l.progress = {}
(* a module is loaded at most once at a time, and a module that is loaded is not loaded again *)
Sane == /\ \A a, b \in 1..Len(l.frames) : a # b => l.frames[a].path # l.frames[b].path
        /\ \A a \in 1..Len(l.frames) : l.frames[a].path \notin DOMAIN l.complete
ASSUME \A x \in 1..Len(L!Families) : PrintT("GEN " \o ToJson([f |-> L!Families[x], at |-> x]))
=============================================================================
