------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* What a written text must say about the value g = [v, nodes] (C07, C08,  *)
(* C20).                                                                   *)
(***************************************************************************)
EXTENDS Loader, Graph, Cases
J == INSTANCE StrictJson

Children(n) == IF n.k = "arr" THEN n.items ELSE [i \in 1..Len(n.props) |-> n.props[i][2]]
LeafBad(v) == v.k = "big" \/ (v.k = "num" /\ IsNaN(v.f))
(* all nodes of the record are reached from the value *)
HasBad(g) == LeafBad(g.v) \/ \E n \in 1..Len(g.nodes) : \E i \in 1..Len(Children(g.nodes[n])) :
               LeafBad(Children(g.nodes[n])[i])

JsonOk(g, out) ==
  IF HasBad(g) THEN out.k = "err"
  ELSE /\ out.k = "ok"
       /\ LET r == J!ReadJson(out.t) IN r.ok /\ J!TreeIs(r.v, g.v, g.nodes)

(* nodes that more than one place refers to *)
Uses(g, n) ==
  FoldLeft(LAMBDA acc, m : acc + Len(SelectSeq(Children(g.nodes[m]), LAMBDA v : v.k = "ref" /\ v.n = n)),
           0, [i \in 1..Len(g.nodes) |-> i])
Shared(g) == {n \in 1..Len(g.nodes) : Uses(g, n) > 1}

Root == <<97>>
(* The module is read by the specification of the loader, step by step to its end, with the state of
   its frame kept. *)
ReadModule(t) ==
  LET r == FoldLeft(LAMBDA acc, tok : PStep(acc.p, acc.heap, tok), Res(PStart, << >>), Tokens(t))
  IN r
ModTextOk(g, t, dt) ==
     LET r == ReadModule(t)
     IN /\ r.p.m = "done" /\ r.p.dt = dt
        /\ Len(r.heap) = Len(g.nodes)               \* every node is written once
        /\ Match(<<<<r.p.val, g.v>>>>, << >>, r.heap, g.nodes)[1]
        \* the constants are the shared nodes, no more
        /\ LET all == DOMAIN r.p.consts IN
           /\ \A c \in all : r.p.consts[c].k = "ref"
           /\ LET map == Match(<<<<r.p.val, g.v>>>>, << >>, r.heap, g.nodes)[2]
              IN {map[r.p.consts[c].n] : c \in all} = Shared(g)
=============================================================================
