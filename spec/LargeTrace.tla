----------------------------- MODULE LargeTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded loads of large module systems (C04, C05, C06):  *)
(* the outcome is the one of Large for this family and size.               *)
(*   a run       a size, and numbers with one step per repetition          *)
(*   a number    <<j, i, base, w>>, or << >>: a text without one           *)
(* A character that comes four times or more in a row is told with its     *)
(* count.                                                                  *)
(***************************************************************************)
EXTENDS Large, Cases

Size(s, n) == s[1] * n + s[2]
NumOf(h, n) == <<h.j, h.i, h.n * n + h.c, h.w>>
PieceOf(p, n) == [x \in 1..Len(p) |-> [s |-> p[x].s, h |-> IF p[x].h = << >> THEN << >> ELSE NumOf(p[x].h[1], n),
                                            r |-> Size(p[x].r, n)]]
SameSeq(a, b, Same(_, _)) == Len(a) = Len(b) /\ \A x \in 1..Len(a) : Same(a[x], b[x])

SameV(w, g, n) ==
  /\ w.k = g.k
  /\ CASE w.k \in {"num", "big", "ref"} -> g.h = NumOf(w.h, n)
       [] w.k = "str" -> g.t = PieceOf(w.t, n)
       [] w.k = "bool" -> g.b = w.b
       [] OTHER -> TRUE
Some(runs, n) == SelectSeq(runs, LAMBDA r : Size(r.n, n) > 0)
SameItem(w, g, n) == g.n = Size(w.n, n) /\ g.key = PieceOf(w.key, n) /\ SameV(w.v, g.v, n)
SameBlock(w, g, n) == /\ g.n = Size(w.n, n) /\ g.k = w.k
                      /\ SameSeq(Some(w.kids, n), g.kids, LAMBDA a, b : SameItem(a, b, n))
SameRead(w, g, n) == g.n = Size(w.n, n) /\ g.p = PieceOf(w.p, n) /\ g.ok = w.ok
SameIn(w, g, n) == g.n = Size(w.n, n) /\ g.p = PieceOf(w.p, n)

SameOut(w, g, n) ==
  /\ w.k = g.k
  /\ w.k = "err" => g.e = w.e
  /\ w.k = "ok" => /\ g.dt = w.dt /\ SameV(w.v, g.v, n)
                   /\ SameSeq(Some(w.nodes, n), g.nodes, LAMBDA a, b : SameBlock(a, b, n))

Count(blocks, n) == FoldLeft(LAMBDA a, b : a + Size(b.n, n), 0, blocks)

Conforms == AtCase => LET r == Current  F == Families[r.at] IN
  /\ r.o = "ok" /\ r.f = F.f
  /\ SameOut(F.out, r.out, r.n)
  /\ SameSeq(Some(F.reads, r.n), r.reads, LAMBDA a, b : SameRead(a, b, r.n))
  /\ SameSeq(Some(F.cache, r.n), r.cache, LAMBDA a, b : SameIn(a, b, r.n))
  /\ r.progress = 0
  (* loaded again with the same cache: only the root is read, and all nodes but its own (one, where there are
     other modules) are those of before *)
  /\ F.out.k = "ok" => /\ SameOut(F.out, r.again.out, r.n)
                       /\ SameSeq(SubSeq(F.reads, 1, 1), r.again.reads, LAMBDA a, b : SameRead(a, b, r.n))
                       /\ r.again.kept = (IF F.prop = "C06" THEN Count(F.out.nodes, r.n) - 1 ELSE 0)
=============================================================================
