----------------------------- MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded histories of handles (C09).  A step is [op, r,  *)
(* slots, objs (the living ones that slots lead to), free (blocks given    *)
(* back), drop (payloads dropped)]; steps that other records show have     *)
(* only [op, r].                                                           *)
(***************************************************************************)
EXTENDS Heap, Blocks, Cases

Sorted(seq) == SortSeq(seq, LAMBDA x, y : x < y)
ObjsOf(st) == {[n |-> n, k |-> st.objs[n].k, xs |-> st.objs[n].xs] : n \in Live(st)}

Step(acc, s) ==
  IF ~acc.ok \/ ~Enabled(acc.st, s.op) THEN [acc EXCEPT !.ok = FALSE]
  ELSE LET out == Do(acc.st, s.op)
           gone == Gone(acc.st, out)
           t == out.st
       IN IF "slots" \notin DOMAIN s THEN [ok |-> s.r = out.r, st |-> t]
          ELSE
          [ok |-> /\ s.r = out.r
                  /\ s.slots = t.slots
                  /\ ToSet(s.objs) = ObjsOf(t)
                  /\ Len(s.objs) = Cardinality(Live(t))
                  /\ s.free = Sorted(SetToSeq(gone))
                  /\ s.drop = Sorted(Dropped(acc.st, out)),
           st |-> t]

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ FoldLeft(Step, [ok |-> TRUE, st |-> Start(r.slots)], r.steps).ok
  /\ MemoryOk(r)
=============================================================================
