----------------------------- MODULE Tokenizer -----------------------------
(***************************************************************************)
(* The lexical grammar of DJS as a state machine.  Characters are code     *)
(* points.  A state has a control mode `m` and the data of the token that  *)
(* is being read; a step consumes one character and emits tokens.  An      *)
(* invalid character of one token is pushed again in another mode, as the  *)
(* implementation does, so that tokenizing goes on after an error.         *)
(*                                                                         *)
(* Tokens are symbolic: a number token carries its decimal digits, the     *)
(* meaning of a number is defined in module Decimal.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

LF == 10  CR == 13  TAB == 9  SP == 32
QUOTE == 34  BACKSLASH == 92  SLASH == 47  STAR == 42  MINUS == 45  PLUS == 43  DOT == 46
LowU == 117  LowN == 110

Digit(c) == c \in 48..57
IdStart(c) == c \in 97..122 \/ c \in 65..90 \/ c = 95 \/ c = 36
IdChar(c) == IdStart(c) \/ Digit(c)
Blank(c) == c \in {SP, LF, TAB, CR}
Operator(c) == c \in {123, 125, 91, 93, 58, 44, 61, 59, 40, 41}       \* { } [ ] : , = ; ( )
Terminal(c) == Blank(c) \/ Operator(c) \/ c = QUOTE \/ c = SLASH      \* may follow a number
ExpChar(c) == c \in {69, 101}

Hex(c) == IF Digit(c) THEN c - 48
          ELSE IF c \in 97..102 THEN c - 87
          ELSE IF c \in 65..70 THEN c - 55 ELSE -1
(* the character denoted by a one-letter escape, -1 if there is none *)
Escape(c) == CASE c \in {QUOTE, BACKSLASH, SLASH} -> c
               [] c = 98 -> 8  [] c = 102 -> 12  [] c = LowN -> 10  [] c = 114 -> 13  [] c = 116 -> 9
               [] OTHER -> -1
HighSurrogate(u) == u \in 55296..56319
LowSurrogate(u) == u \in 56320..57343

Modes == {"initial", "id", "string", "escape", "hex", "minus", "zero", "int", "fracBegin", "frac",
          "expBegin", "expSign", "exp", "bigint", "newLine", "commentStart", "line", "multi",
          "multiStar", "operator"}

(* --- tokens --- *)
Err(e) == [k |-> "err", e |-> e]
Punct(c) == [k |-> "p", c |-> c]
NL == [k |-> "nl"]
IdT(s) == [k |-> "id", s |-> s]
StrT(s) == [k |-> "str", s |-> s]
(* (-1)^neg * ds * 10^((-1)^eneg * e - fe), where ds and e are decimal digits *)
NumT(n) == [k |-> "num", neg |-> n.neg, ds |-> n.ds, fe |-> n.fe, eneg |-> n.eneg, e |-> n.e]
BigT(n) == [k |-> "big", neg |-> n.neg, ds |-> n.ds]

UC == "UnexpectedCharacter"  IN_ == "InvalidNumber"  IH == "InvalidHex"
MQ == "MissingQuotes"  CC == "CommentClosingExpected"

(* --- states --- *)
Start == [m |-> "initial"]
S(m, s) == [m |-> m, s |-> s]
N(m, n) == [m |-> m, n |-> n]
HexSt(s, high, u, i) == [m |-> "hex", s |-> s, high |-> high, u |-> u, i |-> i]
Num0(neg) == [neg |-> neg, ds |-> << >>, fe |-> 0, eneg |-> FALSE, e |-> << >>]
AddD(n, c) == [n EXCEPT !.ds = Append(@, c - 48)]
AddF(n, c) == [n EXCEPT !.ds = Append(@, c - 48), !.fe = @ + 1]
AddE(n, c) == [n EXCEPT !.e = Append(@, c - 48)]

R(st, out) == [st |-> st, out |-> out]
Go(st) == R(st, << >>)

FromInitial(c) ==
  CASE Operator(c) \/ c = DOT -> Go(S("operator", c))
    [] c \in 49..57 -> Go(N("int", AddD(Num0(FALSE), c)))
    [] c = 48 -> Go(N("zero", AddD(Num0(FALSE), c)))
    [] c = QUOTE -> Go(S("string", << >>))
    [] c = MINUS -> Go([m |-> "minus"])
    [] IdStart(c) -> Go(S("id", <<c>>))
    [] c = LF -> Go([m |-> "newLine"])
    [] c \in {SP, TAB, CR} -> Go(Start)
    [] c = SLASH -> Go([m |-> "commentStart"])
    [] OTHER -> R(Start, <<Err(UC)>>)

(* emit `tok` and push the character again *)
Again(tok, c) == LET r == FromInitial(c) IN R(r.st, <<tok>> \o r.out)

FromString(s, c) ==
  CASE c = QUOTE -> R(Start, <<StrT(s)>>)
    [] c = BACKSLASH -> Go(S("escape", s))
    [] OTHER -> Go(S("string", Append(s, c)))
AgainString(tok, s, c) == LET r == FromString(s, c) IN R(r.st, <<tok>> \o r.out)

(* The first surrogate of a pair is kept in `high`; i = 4 and 5 are `\` and `u` of the second one. *)
FromHex(st, c) ==
  LET d == Hex(c)
      u == st.u * 16 + d
  IN CASE st.i <= 2 /\ d >= 0 -> Go([st EXCEPT !.u = u, !.i = @ + 1])
       [] st.i = 3 /\ d >= 0 ->
            IF st.high = -1
            THEN CASE HighSurrogate(u) -> Go(HexSt(st.s, u, 0, 4))
                   [] LowSurrogate(u) -> R(Start, <<Err(IH)>>)
                   [] OTHER -> Go(S("string", Append(st.s, u)))
            ELSE IF LowSurrogate(u)
                 THEN Go(S("string", Append(st.s, 65536 + (st.high - 55296) * 1024 + (u - 56320))))
                 ELSE R(Start, <<Err(IH)>>)
       [] st.i = 4 /\ c = BACKSLASH -> Go([st EXCEPT !.i = 5])
       [] st.i = 5 /\ c = LowU -> Go([st EXCEPT !.i = 0])
       [] OTHER -> AgainString(Err(IH), st.s, c)

Step(st, c) ==
  CASE st.m = "initial" -> FromInitial(c)
    [] st.m = "id" -> IF IdChar(c) THEN Go(S("id", Append(st.s, c))) ELSE Again(IdT(st.s), c)
    [] st.m = "string" -> FromString(st.s, c)
    [] st.m = "escape" ->
         IF Escape(c) >= 0 THEN Go(S("string", Append(st.s, Escape(c))))
         ELSE IF c = LowU THEN Go(HexSt(st.s, -1, 0, 0))
         ELSE AgainString(Err(UC), st.s, c)
    [] st.m = "hex" -> FromHex(st, c)
    [] st.m = "minus" ->
         CASE c = 48 -> Go(N("zero", AddD(Num0(TRUE), c)))
           [] c \in 49..57 -> Go(N("int", AddD(Num0(TRUE), c)))
           [] OTHER -> Again(Err(IN_), c)
    [] st.m \in {"zero", "int"} ->
         CASE Digit(c) /\ st.m = "int" -> Go(N("int", AddD(st.n, c)))
           [] c = DOT -> Go(N("fracBegin", st.n))
           [] ExpChar(c) -> Go(N("expBegin", st.n))
           [] c = LowN -> Go(N("bigint", st.n))
           [] Terminal(c) -> Again(NumT(st.n), c)
           [] OTHER -> Again(Err(IN_), c)
    [] st.m = "fracBegin" -> IF Digit(c) THEN Go(N("frac", AddF(st.n, c))) ELSE Again(Err(IN_), c)
    [] st.m = "frac" ->
         CASE Digit(c) -> Go(N("frac", AddF(st.n, c)))
           [] ExpChar(c) -> Go(N("expBegin", st.n))
           [] Terminal(c) -> Again(NumT(st.n), c)
           [] OTHER -> Again(Err(IN_), c)
    [] st.m = "expBegin" ->
         CASE Digit(c) -> Go(N("exp", AddE(st.n, c)))
           [] c \in {PLUS, MINUS} -> Go(N("expSign", [st.n EXCEPT !.eneg = (c = MINUS)]))
           [] OTHER -> Again(Err(IN_), c)
    [] st.m = "expSign" -> IF Digit(c) THEN Go(N("exp", AddE(st.n, c))) ELSE Again(Err(IN_), c)
    [] st.m = "exp" ->
         CASE Digit(c) -> Go(N("exp", AddE(st.n, c)))
           [] Terminal(c) -> Again(NumT(st.n), c)
           [] OTHER -> Again(Err(IN_), c)
    [] st.m = "bigint" -> IF Terminal(c) THEN Again(BigT(st.n), c) ELSE Again(Err(IN_), c)
    [] st.m = "newLine" -> IF Blank(c) THEN Go(st) ELSE Again(NL, c)
    [] st.m = "commentStart" ->
         CASE c = SLASH -> Go([m |-> "line"])
           [] c = STAR -> Go([m |-> "multi"])
           [] OTHER -> R(Start, <<Err(UC)>>)
    [] st.m = "line" -> IF c \in {LF, CR} THEN Go([m |-> "newLine"]) ELSE Go(st)
    [] st.m = "multi" -> IF c = STAR THEN Go([m |-> "multiStar"]) ELSE Go(st)
    [] st.m = "multiStar" ->
         CASE c = SLASH -> Go(Start)
           [] c = STAR -> Go(st)
           [] OTHER -> Go([m |-> "multi"])
    [] st.m = "operator" -> Again(Punct(st.s), c)

(* what the end of the text emits *)
AtEnd(st) ==
  CASE st.m \in {"initial", "newLine", "line"} -> << >>
    [] st.m = "id" -> <<IdT(st.s)>>
    [] st.m \in {"string", "escape", "hex"} -> <<Err(MQ)>>
    [] st.m = "commentStart" -> <<Err(UC)>>
    [] st.m \in {"multi", "multiStar"} -> <<Err(CC)>>
    [] st.m \in {"zero", "int", "frac", "exp"} -> <<NumT(st.n)>>
    [] st.m = "bigint" -> <<BigT(st.n)>>
    [] st.m \in {"minus", "fracBegin", "expBegin", "expSign"} -> <<Err(IN_)>>
    [] st.m = "operator" -> <<Punct(st.s)>>

Push(acc, c) == LET r == Step(acc.st, c)
                IN [st |-> r.st, out |-> IF r.out = << >> THEN acc.out ELSE acc.out \o r.out]
Run(text) == FoldLeft(Push, R(Start, << >>), text)
Tokens(text) == LET r == Run(text) IN r.out \o AtEnd(r.st)
=============================================================================
