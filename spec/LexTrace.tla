------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded runs of the tokenizer (C01, C02, C03).          *)
(*   t  the text, as code points                                           *)
(*   k  the tokens of tokenize()                                           *)
(*   incOk  did pushing one character at a time give a prefix of k that    *)
(*      lacks at most one token, that of the end of the text?              *)
(*   itOk  did the lazy iterator give the same tokens and then end?        *)
(*   eq (optional) for each token the first one that equals it             *)
(*   v  (optional) the value of the text loaded as a module                *)
(*                                                                         *)
(* Sweeps over characters from U+0080 (a record has `g`):                  *)
(*   s, tail  what precedes and what follows the character                 *)
(*   lo, hi, step  the characters: lo, lo + step, ... up to hi             *)
(*   g  ranges of characters with the same tokens, in which the character  *)
(*      itself is -1; val = TRUE: the last one is the value of the string  *)
(***************************************************************************)
EXTENDS Tokenizer, Decimal, Cases

Same(want, got) ==
  /\ want.k = got.k
  /\ CASE want.k = "nl" -> TRUE
       [] want.k = "p" -> want.c = got.c
       [] want.k \in {"id", "str"} -> want.s = got.s
       [] want.k = "err" -> want.e = got.e
       [] want.k = "num" -> IsDouble(got.f) /\ LiteralIs(want, got.f)
       [] want.k = "big" -> IsInt(got.v) /\ BigLiteralIs(want, got.v)

(* Tokens are equal when they are of one kind and have the same content; 0 and -0 are equal. *)
EqualTokens(a, b) == a = b \/ (a.k = "num" /\ b.k = "num" /\ IsZeroF(a.f) /\ IsZeroF(b.f))
FirstEqual(k) == [i \in 1..Len(k) |-> CHOOSE j \in 1..i : EqualTokens(k[j], k[i]) /\ \A m \in 1..(j - 1) : ~EqualTokens(k[m], k[i])]

SameAll(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : Same(want[i], got[i])

(* The UTF-16 form of code points. *)
Utf16(s) == FoldLeft(LAMBDA acc, c :
              IF c < 65536 THEN Append(acc, c)
              ELSE acc \o <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>, << >>, s)

(* The value of a text that is one literal.  Other texts are judged by the specification of the
   parser. *)
ValueOk(want, v) ==
  IF Len(want) # 1 THEN TRUE
  ELSE CASE want[1].k = "err" -> v.k = "none"
         [] want[1].k = "str" -> v.k = "str" /\ v.s = Utf16(want[1].s)
         [] want[1].k = "num" -> v.k = "num" /\ IsDouble(v.f) /\ LiteralIs(want[1], v.f)
         [] want[1].k = "big" -> v.k = "big" /\ IsInt(v.v) /\ BigLiteralIs(want[1], v.v)
         [] OTHER -> TRUE

(* The specification only tells characters below U+0080 apart, so a range is judged by its ends. *)
Put(k, c) == [i \in 1..Len(k) |->
                IF k[i].k \in {"str", "id"} THEN [k[i] EXCEPT !.s = [j \in 1..Len(@) |-> IF @[j] = -1 THEN c ELSE @[j]]]
                ELSE k[i]]
SweepOk(r) ==
  LET g == r.g IN
  /\ Len(g) > 0 /\ g[1].lo = r.lo /\ g[Len(g)].hi \in (r.hi - r.step + 1)..r.hi
  /\ \A i \in 1..Len(g) - 1 : g[i + 1].lo = g[i].hi + r.step
  /\ \A i \in 1..Len(g) : \A c \in {g[i].lo, g[i].hi} :
       LET n == Len(g[i].k)
           k == IF r.val THEN SubSeq(g[i].k, 1, n - 1) ELSE g[i].k
       IN /\ SameAll(Run(r.s \o <<c>> \o r.tail).out, Put(k, c))
          /\ r.val => n > 0 /\ g[i].k[n].k = "str" /\ g[i].k[n].s = <<-1>>

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ IF "g" \in DOMAIN r THEN SweepOk(r) ELSE
     /\ LET want == Tokens(r.t) IN
        /\ SameAll(want, r.k)
        /\ "v" \in DOMAIN r => ValueOk(want, r.v)
     /\ "eq" \in DOMAIN r => r.eq = FirstEqual(r.k)
     /\ r.incOk
     /\ r.itOk
=============================================================================
