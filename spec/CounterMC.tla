----------------------------- MODULE CounterMC ------------------------------
(***************************************************************************)
(* All programs in bounds in all schedules; each program is printed to be  *)
(* executed by threads.                                                    *)
(***************************************************************************)
EXTENDS Counter, Json, TLC
CONSTANTS Shapes   \* <<threads, operations of a thread, handles of a thread>>
Shapes0 == {<<1, 4, 2>>, <<2, 3, 2>>, <<3, 2, 1>>}
ShapesBig == {<<1, 6, 3>>, <<2, 4, 2>>, <<3, 2, 2>>, <<4, 2, 1>>}
Ops == {"add", "release", "read"}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<< >>} ELSE Seqs(n - 1) \cup {Append(q, f) : q \in Seqs(n - 1), f \in Ops}
Threads(n, h) == {t \in {[h |-> k, ops |-> q] : k \in 1..h, q \in Seqs(n) \ {<< >>}} : Legal(t)}
(* a number for each thread, so that a program is written in one order of its threads only *)
Digit(op) == CASE op = "add" -> 1 [] op = "release" -> 2 [] op = "read" -> 3
RECURSIVE Code(_)
Code(q) == IF q = << >> THEN 0 ELSE Digit(Head(q)) + 4 * Code(Tail(q))
Key(t) == Code(t.ops) * 4 + t.h
Programs == UNION {{p \in [1..s[1] -> Threads(s[2], s[3])] : \A i \in 1..(s[1] - 1) : Key(p[i]) <= Key(p[i + 1])} : s \in Shapes}

VARIABLES p, s
Init == p \in Programs /\ s = Start(p)
Next == s' \in Step(p, s) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, s>> /\ WF_<<p, s>>(Next)

Counts == s.count = Handles(p, s) - 1
(* nobody is told that the handle is the last while there is another one, and the last one is told *)
Last == s.last # << >> =>
          (s.last[2] = "release" => (s.last[3] = 0 <=> Handles(p, s) = 0))
(* sole: one handle, that of the reader *)
Sole == s.last # << >> =>
          (s.last[2] = "read" => (s.last[3] = 0 <=> Handles(p, s) = 1))
(* exactly one is told, when all have finished *)
Told == Cardinality(UNION {{<<i, k>> : k \in {k \in 1..Done(s, i) : p[i].ops[k] = "release" /\ s.res[i][k] = 0}} : i \in DOMAIN p})
Once == Told = IF Handles(p, s) = 0 THEN 1 ELSE 0
(* the way in which recorded runs are judged accepts what is seen of this run *)
Run == [res |-> [i \in DOMAIN p |-> [k \in DOMAIN s.res[i] |-> Seen(p[i].ops[k], s.res[i][k])]],
        rest |-> [k \in 1..Handles(p, s) |-> IF k = Handles(p, s) THEN 1 ELSE 0]]
Judged == Can(p, s) = {} => Fits(p, Start(p), Run)
(* what is known of a long run holds for the short ones of this form *)
RECURSIVE Copies(_)
Copies(q) == IF Len(q) < 3 THEN q = <<"release">>
             ELSE SubSeq(q, 1, 3) = <<"add", "read", "release">> /\ Copies(SubSeq(q, 4, Len(q)))
Long == (Can(p, s) = {} /\ \A i \in DOMAIN p : p[i].h = 1 /\ Copies(p[i].ops)) =>
  LET N(P(_, _)) == Cardinality({x \in UNION {{<<i, k>> : k \in DOMAIN s.res[i]} : i \in DOMAIN p} :
                                   s.res[x[1]][x[2]] = 0 /\ P(p[x[1]].ops, x[2])})
  IN LongFits([copy |-> N(LAMBDA ops, k : ops[k] = "release" /\ k < Len(ops)),
               sole |-> N(LAMBDA ops, k : ops[k] = "read"),
               last |-> N(LAMBDA ops, k : ops[k] = "release" /\ k = Len(ops))])
Ends == <>(Can(p, s) = {})
Emit == s = Start(p) => PrintT("GEN " \o ToJson([threads |-> p]))
=============================================================================
