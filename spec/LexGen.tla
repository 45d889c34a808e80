------------------------------- MODULE LexGen -------------------------------
(***************************************************************************)
(* The tokenizer as a reactive system over one representative of every     *)
(* class of characters.  TLC explores its control states (data of tokens   *)
(* is abstracted by the view), checks that the machine is well behaved and *)
(* prints a shortest text that leads to every control state; the harness   *)
(* extends these access strings by every character and pair of characters. *)
(***************************************************************************)
EXTENDS Tokenizer, Json

Alphabet == {123, 46, 59, 32, 10, 13, 34, 92, 47, 42, 45, 43, 48, 49, 57, 101, 110, 117, 98,
             65, 68, 67, 56, 102, 120, 95, 35, 1, 233, 128512}
VARIABLES st, out, hist
vars == <<st, out, hist>>

Init == st = Start /\ out = << >> /\ hist = << >>
Next == \E c \in Alphabet :
          LET r == Step(st, c) IN st' = r.st /\ out' = r.out /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

Bit(s) == IF s = << >> THEN 0 ELSE 1
Control ==
  CASE st.m \in {"string", "escape"} -> <<st.m, Bit(st.s)>>
    [] st.m = "operator" -> <<st.m>>
    [] st.m = "hex" -> <<st.m, Bit(st.s), IF st.high = -1 THEN 0 ELSE 1, st.i,
                         CASE st.i = 1 -> IF st.u = 13 THEN 1 ELSE 0
                           [] st.i = 2 -> CASE st.u \in 216..219 -> 1 [] st.u \in 220..223 -> 2 [] OTHER -> 0
                           [] st.i = 3 -> CASE st.u \in 3456..3519 -> 1 [] st.u \in 3520..3583 -> 2 [] OTHER -> 0
                           [] OTHER -> 0>>
    [] st.m \in {"zero", "int", "bigint", "fracBegin", "frac", "expBegin"} -> <<st.m, st.n.neg>>
    [] st.m \in {"expSign", "exp"} -> <<st.m, st.n.neg, st.n.eneg, st.n.fe > 0>>
    [] OTHER -> <<st.m>>

TypeOK ==
  /\ st.m \in Modes
  /\ Len(out) <= 2                       \* a character ends at most one token and begins another
  /\ Len(AtEnd(st)) <= 1
  \* the end of the text gives what a following line end gives, except for unclosed texts
  /\ st.m \in {"initial", "id", "zero", "int", "frac", "exp", "bigint", "minus", "fracBegin", "expBegin", "expSign",
               "operator", "commentStart", "newLine"}
     => (IF st.m = "newLine" THEN Step(st, 10).out = << >> ELSE Step(st, 10).out = AtEnd(st))
  \* no token is lost: a line end brings every state but those of strings and comments back
  /\ st.m \notin {"string", "escape", "hex", "multi", "multiStar"} =>
       (Step(st, 10).st.m = "newLine" \/ st.m = "commentStart")

Emit == PrintT("GEN " \o ToJson(hist))
=============================================================================
