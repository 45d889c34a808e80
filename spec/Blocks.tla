------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Blocks of memory that a manager gives out and gets back (C10).  An      *)
(* event is <<k, n, s, a, t>>: k 1 (given out) or 0 (given back), block     *)
(* number, size, alignment, and what the manager accounts for afterwards.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NoBlocks == [ok |-> TRUE, live |-> << >>, total |-> 0, count |-> 0]

(* Gives out block number count + 1, or takes back a live block as it was given out. *)
Event(accounts, st, ev) ==
  LET e == [k |-> ev[1], n |-> ev[2], s |-> ev[3], a |-> ev[4], t |-> ev[5]] IN
  IF ~st.ok THEN st
  ELSE IF e.k = 1
  THEN [ok |-> /\ e.n = st.count + 1
               /\ e.a \in {2^k : k \in 0..20}
               /\ accounts => e.t - st.total >= e.s,
        live |-> (e.n :> [s |-> e.s, a |-> e.a, d |-> e.t - st.total]) @@ st.live,
        total |-> e.t, count |-> st.count + 1]
  ELSE IF e.n \notin DOMAIN st.live THEN [st EXCEPT !.ok = FALSE]
  ELSE LET b == st.live[e.n]
       IN [ok |-> e.s = b.s /\ e.a = b.a /\ (accounts => e.t = st.total - b.d),
           live |-> [n \in DOMAIN st.live \ {e.n} |-> st.live[n]],
           total |-> e.t, count |-> st.count]

(* Everything that was taken has been given back. *)
AllBack(accounts, ev) ==
  LET st == FoldLeft(LAMBDA acc, e : Event(accounts, acc, e), NoBlocks, ev)
  IN st.ok /\ DOMAIN st.live = {} /\ (accounts => st.total = 0)

(* ev: blocks; raw: what the manager took from the system for them *)
MemoryOk(r) ==
  /\ AllBack(r.local, r.ev)
  /\ AllBack(FALSE, r.raw)
  /\ Len(r.raw) = Len(r.ev)
  /\ r.touched = 0
=============================================================================
