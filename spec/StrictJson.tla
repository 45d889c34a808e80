----------------------------- MODULE StrictJson -----------------------------
(***************************************************************************)
(* A strict reader of JSON (RFC 8259), used as the judge of JSON output.   *)
(* The value is a tree: null, bool, num (a token of Tokenizer), str (UTF-16*)
(* units), arr [items], obj [props: <<key, value>>].                       *)
(***************************************************************************)
EXTENDS Tokenizer, Decimal

At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
JFail == [ok |-> FALSE]
Ok(v, i) == [ok |-> TRUE, v |-> v, i |-> i]

RECURSIVE Skip(_, _)
Skip(t, i) == IF At(t, i) \in {SP, TAB, LF, CR} THEN Skip(t, i + 1) ELSE i

RECURSIVE IsWord(_, _, _, _)
IsWord(t, i, w, j) == j > Len(w) \/ (At(t, i) = w[j] /\ IsWord(t, i + 1, w, j + 1))

(* the end of the digits from i *)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF At(t, i) \in 48..57 THEN DigitsEnd(t, i + 1) ELSE i
Ds(t, i, j) == [k \in 1..(j - i) |-> t[i + k - 1] - 48]

JNumber(t, i) ==
  LET neg == At(t, i) = MINUS
      a == IF neg THEN i + 1 ELSE i
      b == IF At(t, a) = 48 THEN a + 1 ELSE DigitsEnd(t, a)
      hasF == At(t, b) = DOT
      c == IF hasF THEN DigitsEnd(t, b + 1) ELSE b
      hasE == At(t, c) \in {69, 101}
      signed == hasE /\ At(t, c + 1) \in {PLUS, MINUS}
      d == IF signed THEN c + 2 ELSE c + 1
      e == IF hasE THEN DigitsEnd(t, d) ELSE c
  IN IF b = a \/ (hasF /\ c = b + 1) \/ (hasE /\ e = d) THEN JFail
     ELSE Ok([k |-> "num", neg |-> neg, ds |-> Ds(t, a, b) \o (IF hasF THEN Ds(t, b + 1, c) ELSE << >>),
              fe |-> IF hasF THEN c - b - 1 ELSE 0, eneg |-> signed /\ At(t, c + 1) = MINUS,
              e |-> IF hasE THEN Ds(t, d, e) ELSE << >>], e)

Unit4(t, i) == LET h == [k \in 0..3 |-> Hex(At(t, i + k))] IN
  IF \E k \in 0..3 : h[k] < 0 THEN -1 ELSE ((h[0] * 16 + h[1]) * 16 + h[2]) * 16 + h[3]
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>

RECURSIVE JChars(_, _, _)
JChars(t, i, acc) ==
  LET c == At(t, i) IN
  CASE c = QUOTE -> Ok(acc, i + 1)
    [] c = BACKSLASH ->
         LET x == At(t, i + 1) IN
         IF x = LowU
         THEN LET u == Unit4(t, i + 2) IN IF u < 0 THEN JFail ELSE JChars(t, i + 6, Append(acc, u))
         ELSE IF Escape(x) < 0 THEN JFail ELSE JChars(t, i + 2, Append(acc, Escape(x)))
    [] c < 32 -> JFail                       \* control characters and the end of the text
    [] OTHER -> JChars(t, i + 1, acc \o Units(c))
JString(t, i) == IF At(t, i) = QUOTE THEN JChars(t, i + 1, << >>) ELSE JFail

RECURSIVE JValue(_, _), JItems(_, _, _), JProps(_, _, _)
JItems(t, i, acc) ==
  LET r == JValue(t, i) IN
  IF ~r.ok THEN JFail
  ELSE LET j == Skip(t, r.i)
           all == Append(acc, r.v)
       IN CASE At(t, j) = 93 -> Ok([k |-> "arr", items |-> all], j + 1)
            [] At(t, j) = 44 -> JItems(t, j + 1, all)
            [] OTHER -> JFail
JProps(t, i, acc) ==
  LET key == JString(t, Skip(t, i)) IN
  IF ~key.ok THEN JFail
  ELSE LET c == Skip(t, key.i) IN
       IF At(t, c) # 58 THEN JFail
       ELSE LET r == JValue(t, c + 1) IN
            IF ~r.ok THEN JFail
            ELSE LET j == Skip(t, r.i)
                     all == Append(acc, <<key.v, r.v>>)
                 IN CASE At(t, j) = 125 -> Ok([k |-> "obj", props |-> all], j + 1)
                      [] At(t, j) = 44 -> JProps(t, j + 1, all)
                      [] OTHER -> JFail
JValue(t, at) ==
  LET i == Skip(t, at)
      c == At(t, i)
  IN CASE c = 91 -> LET j == Skip(t, i + 1) IN
                    IF At(t, j) = 93 THEN Ok([k |-> "arr", items |-> << >>], j + 1) ELSE JItems(t, i + 1, << >>)
       [] c = 123 -> LET j == Skip(t, i + 1) IN
                     IF At(t, j) = 125 THEN Ok([k |-> "obj", props |-> << >>], j + 1) ELSE JProps(t, i + 1, << >>)
       [] c = QUOTE -> LET r == JString(t, i) IN IF r.ok THEN Ok([k |-> "str", s |-> r.v], r.i) ELSE JFail
       [] c = MINUS \/ c \in 48..57 -> JNumber(t, i)
       [] IsWord(t, i, <<110, 117, 108, 108>>, 1) -> Ok([k |-> "null"], i + 4)
       [] IsWord(t, i, <<116, 114, 117, 101>>, 1) -> Ok([k |-> "bool", b |-> TRUE], i + 4)
       [] IsWord(t, i, <<102, 97, 108, 115, 101>>, 1) -> Ok([k |-> "bool", b |-> FALSE], i + 5)
       [] OTHER -> JFail

(* a whole text *)
ReadJson(t) == LET r == JValue(t, 1) IN IF r.ok /\ Skip(t, r.i) = Len(t) + 1 THEN r ELSE JFail

(* Is a recorded value what the text says?  Sharing is lost in JSON. *)
RECURSIVE TreeIs(_, _, _)
TreeIs(v, got, nodes) ==
  CASE v.k = "null" -> got.k = "null"
    [] v.k = "bool" -> got.k = "bool" /\ got.b = v.b
    [] v.k = "num" -> got.k = "num" /\ IsDouble(got.f) /\ LiteralIs(v, got.f)
    [] v.k = "str" -> got.k = "str" /\ got.s = v.s
    [] OTHER -> /\ got.k = "ref"
                /\ LET n == nodes[got.n] IN
                   /\ n.k = v.k
                   /\ IF v.k = "arr"
                      THEN /\ Len(n.items) = Len(v.items)
                           /\ \A i \in 1..Len(v.items) : TreeIs(v.items[i], n.items[i], nodes)
                      ELSE /\ Len(n.props) = Len(v.props)
                           /\ \A i \in 1..Len(v.props) : /\ n.props[i][1] = v.props[i][1]
                                                         /\ TreeIs(v.props[i][2], n.props[i][2], nodes)
=============================================================================
