------------------------------- MODULE LongMC -------------------------------
(***************************************************************************)
(* The closed forms of Long: for all texts of a few runs the tokens of the *)
(* text written out are what the runs say.  As a piece of each kind brings *)
(* the machine back to the state it was in (Loops), the counts and numbers *)
(* of runs do not matter.                                                  *)
(***************************************************************************)
EXTENDS Long
CONSTANTS MaxRuns, MaxN

VARIABLES kind, runs
vars == <<kind, runs>>
Pieces == [str |-> StrPieces, id |-> IdPieces, mix |-> MixPieces, note |-> NotePieces]

Init == kind \in DOMAIN Pieces /\ runs = << >>
Next == /\ Len(runs) < MaxRuns
        /\ \E s \in Pieces[kind], n \in 1..MaxN : runs' = Append(runs, [s |-> s, n |-> n])
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

RECURSIVE Repeat(_, _)
Repeat(k, n) == IF n = 0 THEN << >> ELSE k \o Repeat(k, n - 1)
All(rs) == FoldLeft(LAMBDA a, r : a \o Repeat(r.k, r.n), << >>, rs)

Closed ==
  CASE kind = "str" -> Tokens(Quoted(Expand(runs))) = <<StrT(Expand(StrRuns(runs)))>>
    [] kind = "id" -> runs # << >> /\ IdStart(runs[1].s[1]) => Tokens(Expand(runs)) = <<IdT(Expand(IdRuns(runs)))>>
    [] kind = "mix" -> Tokens(Expand(runs)) = All(MixRuns(runs))
    [] kind = "note" -> Tokens(<<SLASH, STAR>> \o Expand(runs) \o <<STAR, SLASH>>) = << >>
(* After any text that brought the machine to the state st, each piece brings it there again. (After an
   operator the machine goes on as it does at the start.) *)
Loops ==
  CASE kind = "mix" -> \A s \in MixPieces : Run(s).st.m \in {"initial", "operator"}
    [] kind = "note" -> \A s \in NotePieces : Run(<<SLASH, STAR>> \o s).st = Run(<<SLASH, STAR>>).st
    [] kind = "str" -> \A s \in StrPieces : Run(<<QUOTE>> \o s).st = [Run(<<QUOTE>>).st EXCEPT !.s = Content(s)]
    [] kind = "id" -> \A s \in IdPieces : Run(<<97>> \o s).st = [Run(<<97>>).st EXCEPT !.s = <<97>> \o s]
=============================================================================
