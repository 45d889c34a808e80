------------------------------- MODULE LexMC -------------------------------
(***************************************************************************)
(* What the tokens of a text are, said without a machine: where the token  *)
(* at a place ends is found by looking for the longest part of the text    *)
(* that is a beginning of a token.  The machine of module Tokenizer agrees *)
(* with this for all texts Begins \o (up to Bound characters of Alphabet).     *)
(***************************************************************************)
EXTENDS Tokenizer, FiniteSets
CONSTANTS Begins, Alphabet, Bound
VARIABLE text, left
vars == <<text, left>>

(* the set of positions i .. Len(t) at which p holds, and the first one, Len(t) + 1 if there is none *)
First(t, i, p(_)) ==
  LET s == {j \in i..Len(t) : p(j)} IN IF s = {} THEN Len(t) + 1 ELSE CHOOSE j \in s : \A k \in s : j <= k
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1

(* --- numbers:  -? (0 | 1-9 digits) (. digits)? ((e|E) (+|-)? digits)?   or   -? (0 | 1-9 digits) n --- *)
Digits(s) == \A i \in 1..Len(s) : Digit(s[i])
Whole(s) == s # << >> /\ Digits(s) /\ (Len(s) = 1 \/ s[1] # 48)
Unsigned(s) == IF s # << >> /\ s[1] = MINUS THEN Tail(s) ELSE s
Cuts(s) == {<<a, b>> \in (0..Len(s)) \X (0..Len(s)) : a <= b}
Frac(s) == s = << >> \/ (s[1] = DOT /\ Len(s) > 1 /\ Digits(Tail(s)))
Exponent(s) == s = << >> \/ (ExpChar(s[1]) /\ LET r == Tail(s)
                                                  d == IF r # << >> /\ r[1] \in {PLUS, MINUS} THEN Tail(r) ELSE r
                                              IN d # << >> /\ Digits(d))
Parts(s) == {c \in Cuts(s) : Whole(SubSeq(s, 1, c[1])) /\ Frac(SubSeq(s, c[1] + 1, c[2])) /\ Exponent(SubSeq(s, c[2] + 1, Len(s)))}
IsNumber(s) == Parts(Unsigned(s)) # {}
IsBig(s) == LET u == Unsigned(s) IN u # << >> /\ u[Len(u)] = LowN /\ Whole(SubSeq(u, 1, Len(u) - 1))
(* a beginning of a number: some characters complete it *)
Completions == {<< >>, <<48>>, <<49>>, <<43, 48>>}
IsBeginning(s) == \E c \in Completions : IsNumber(s \o c) \/ IsBig(s)
Value(ds) == [i \in 1..Len(ds) |-> ds[i] - 48]
NumberToken(s) ==
  LET u == Unsigned(s)
      c == CHOOSE c \in Parts(u) : TRUE
      f == SubSeq(u, c[1] + 2, c[2])
      e == SubSeq(u, c[2] + 2, Len(u))
      es == IF e # << >> /\ e[1] \in {PLUS, MINUS} THEN Tail(e) ELSE e
  IN [k |-> "num", neg |-> u # s, ds |-> Value(SubSeq(u, 1, c[1]) \o f), fe |-> Len(f),
      eneg |-> e # << >> /\ e[1] = MINUS, e |-> Value(es)]
Number(t, i) ==
  LET n == CHOOSE n \in 1..(Len(t) - i + 1) :
             /\ \A k \in 1..n : IsBeginning(SubSeq(t, i, i + k - 1))
             /\ i + n > Len(t) \/ ~IsBeginning(SubSeq(t, i, i + n))
      s == SubSeq(t, i, i + n - 1)
      ends == i + n > Len(t) \/ Terminal(t[i + n])
      u == Unsigned(s)
  IN <<i + n, CASE ends /\ IsNumber(s) -> <<NumberToken(s)>>
                [] ends /\ IsBig(s) -> <<[k |-> "big", neg |-> u # s, ds |-> Value(SubSeq(u, 1, Len(u) - 1))]>>
                [] OTHER -> <<Err(IN_)>>>>

(* --- strings --- *)
Hex4(t, i) == FoldLeft(LAMBDA a, k : a * 16 + Hex(t[k]), 0, <<i, i + 1, i + 2, i + 3>>)
(* how many hexadecimal digits, up to 4, are at i *)
HexRun(t, i) == CHOOSE n \in 0..4 : /\ \A k \in 0..(n - 1) : i + k <= Len(t) /\ Hex(t[i + k]) >= 0
                                    /\ n = 4 \/ i + n > Len(t) \/ Hex(t[i + n]) < 0
RECURSIVE Char(_, _, _, _)
RECURSIVE String(_, _, _, _)
(* the rest of a string from i on, of which s was read; out are the errors so far *)
String(t, i, s, out) ==
  LET lost(j) == IF j > Len(t) THEN <<j, out \o <<Err(MQ)>>>> ELSE Char(t, j, s, out \o <<Err(IH)>>) IN
  IF i > Len(t) THEN <<i, out \o <<Err(MQ)>>>>
  ELSE IF t[i] # BACKSLASH \/ i = Len(t) THEN Char(t, i, s, out)
  ELSE IF Escape(t[i + 1]) >= 0 THEN String(t, i + 2, Append(s, Escape(t[i + 1])), out)
  ELSE IF t[i + 1] # LowU THEN Char(t, i + 1, s, out \o <<Err(UC)>>)
  ELSE LET n == HexRun(t, i + 2)
           u == Hex4(t, i + 2)
           second == i + 6        \* of a pair of surrogates
       IN IF n < 4 THEN lost(i + 2 + n)
          ELSE IF LowSurrogate(u) THEN <<second, out \o <<Err(IH)>>>>
          ELSE IF ~HighSurrogate(u) THEN String(t, second, Append(s, u), out)
          ELSE IF At(t, second) # BACKSLASH THEN lost(second)
          ELSE IF At(t, second + 1) # LowU THEN lost(second + 1)
          ELSE LET m == HexRun(t, second + 2)
                   w == Hex4(t, second + 2)
               IN IF m < 4 THEN lost(second + 2 + m)
                  ELSE IF LowSurrogate(w)
                       THEN String(t, second + 6, Append(s, (u % 1024) * 1024 + (w % 1024) + 65536), out)
                       ELSE <<second + 6, out \o <<Err(IH)>>>>
(* a character that begins no complete escape *)
Char(t, i, s, out) ==
  IF t[i] = QUOTE THEN <<i + 1, out \o <<StrT(s)>>>>
  ELSE IF t[i] = BACKSLASH THEN (IF i = Len(t) THEN <<i + 1, out \o <<Err(MQ)>>>> ELSE String(t, i, s, out))
  ELSE String(t, i + 1, Append(s, t[i]), out)

(* --- blank space and comments --- *)
Line(t, i) == LET j == First(t, i, LAMBDA k : ~Blank(t[k])) IN <<j, IF j > Len(t) THEN << >> ELSE <<NL>>>>
Comment(t, i) ==
  CASE At(t, i + 1) = SLASH -> LET e == First(t, i, LAMBDA k : t[k] \in {LF, CR})
                               IN IF e > Len(t) THEN <<e, << >>>> ELSE Line(t, e)
    [] At(t, i + 1) = STAR -> LET e == First(t, i + 2, LAMBDA k : t[k] = STAR /\ At(t, k + 1) = SLASH)
                              IN IF e > Len(t) THEN <<e, <<Err(CC)>>>> ELSE <<e + 2, << >>>>
    [] OTHER -> <<i + 2, <<Err(UC)>>>>

(* <<the place behind, tokens>> of what is at place i *)
Item(t, i) ==
  LET c == t[i] IN
  CASE c = LF -> Line(t, i)
    [] Blank(c) /\ c # LF -> <<i + 1, << >>>>
    [] c = SLASH -> Comment(t, i)
    [] c = QUOTE -> String(t, i + 1, << >>, << >>)
    [] Digit(c) \/ c = MINUS -> Number(t, i)
    [] IdStart(c) -> LET j == First(t, i, LAMBDA k : ~IdChar(t[k])) IN <<j, <<IdT(SubSeq(t, i, j - 1))>>>>
    [] Operator(c) \/ c = DOT -> <<i + 1, <<Punct(c)>>>>
    [] OTHER -> <<i + 1, <<Err(UC)>>>>
RECURSIVE Read(_, _)
Read(t, i) == IF i > Len(t) THEN << >> ELSE LET r == Item(t, i) IN r[2] \o Read(t, r[1])

\* for the configurations
AllPrefixes == {<< >>}
AllChars == {123, 46, 59, 32, 10, 13, 34, 92, 47, 42, 45, 43, 48, 49, 57, 101, 110, 117, 98, 65, 68, 67, 56, 102, 120, 95, 35, 1, 233, 128512}
NumberChars == {48, 49, 45, 43, 46, 101, 110, 32, 120}
CommentChars == {47, 42, 10, 13, 32, 97, 49, 34}
StringPrefixes == {<<34, 92, 117>>, <<34, 97, 92, 117, 68, 56>>, <<34, 92, 117, 68, 56, 51, 68, 92>>, <<34, 92, 117, 68, 56, 51, 68, 92, 117, 68>>}
StringChars == {68, 67, 56, 48, 92, 117, 34, 120, 110}

Init == text \in Begins /\ left = Bound
Next == left > 0 /\ left' = left - 1 /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_vars

Agrees == Tokens(text) = Read(text, 1)
=============================================================================
