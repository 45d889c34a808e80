----------------------------- MODULE LoadTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded loads (C04, C05, C06).  One execution is a file *)
(* system and a sequence of loads with one cache; the specification makes  *)
(* the same loads and everything observable is compared after each.        *)
(***************************************************************************)
EXTENDS Loader, Graph, Cases

(* the file system fs with the files of a list changed *)
Files(fs, list) ==
  FoldLeft(LAMBDA f, x : IF "gone" \in DOMAIN x THEN [q \in DOMAIN f \ {x.p} |-> f[q]]
                         ELSE Put(f, x.p, [ok |-> x.ok, toks |-> IF x.ok THEN Tokens(x.t) ELSE << >>]), fs, list)

RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* the state after load number i, [ok, files, heap, complete, map] *)
Load(r, cycles, i, acc) ==
  IF ~acc.ok THEN acc
  ELSE LET ld == r.loads[i]
           got == r.r[i]
           files == IF "upd" \in DOMAIN ld THEN Files(acc.files, ld.upd) ELSE acc.files
           start == IF "toks" \in DOMAIN ld
                    THEN BeginTokens(files, ld.fault, acc.heap, acc.complete, ld.root, ld.toks)
                    ELSE Begin(files, ld.fault, acc.heap, acc.complete, ld.root)
           l == RunLoad([start EXCEPT !.cycles = cycles])
           out == l.out[1]
           same == /\ out.k = got.res.k
                   /\ IF out.k = "err" THEN out.e = got.res.e ELSE out.dt = got.res.dt
                   /\ l.reads = got.reads
                   /\ l.progress = RangeOf(got.progress)
                   /\ DOMAIN l.complete = {got.cache[j].p : j \in 1..Len(got.cache)}
           pairs == (IF out.k = "ok" THEN <<<<out.v, got.res.v>>>> ELSE << >>)
                    \o [j \in 1..Len(got.cache) |-> <<l.complete[got.cache[j].p], got.cache[j].v>>]
           m == IF same THEN Match(pairs, acc.map, l.heap, r.nodes) ELSE No
       IN IF m[1] THEN [ok |-> TRUE, files |-> files, heap |-> l.heap, complete |-> l.complete, map |-> m[2]]
          ELSE [acc EXCEPT !.ok = FALSE]

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ Len(r.r) = Len(r.loads)
  /\ \E cycles \in BOOLEAN :
       FoldLeft(LAMBDA acc, i : Load(r, cycles, i, acc),
                [ok |-> TRUE, files |-> Files(<< >>, r.files), heap |-> << >>, complete |-> << >>, map |-> << >>],
                [i \in 1..Len(r.loads) |-> i]).ok
=============================================================================
