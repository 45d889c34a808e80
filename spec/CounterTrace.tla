---------------------------- MODULE CounterTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded runs of threads that share a counter (C23).     *)
(*   handle       ref or any: the type of the handles                      *)
(*   header       atomic, or cell: one thread takes the turns of all       *)
(*   threads      the program, as in Counter                               *)
(*   runs         the different answers seen in all rounds: those of each  *)
(*                thread (res) and of the releases at the end (rest)       *)
(*   long         > 0: a long run of so many threads, with                 *)
(*   copy, sole, last       as in LongFits                                 *)
(*   many         > 0: a run with up to 2^many handles and more, with      *)
(*   at           what was seen on the way, as in ManyFits                 *)
(***************************************************************************)
EXTENDS Counter, Cases

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ IF r.many > 0 THEN ManyFits(r)
     ELSE IF r.long > 0 THEN LongFits(r)
     ELSE \A k \in DOMAIN r.runs :
            /\ \A i \in DOMAIN r.threads : Len(r.runs[k].res[i]) = Len(r.threads[i].ops)
            /\ Fits(r.threads, Start(r.threads), r.runs[k])
=============================================================================
