-------------------------------- MODULE Long --------------------------------
(***************************************************************************)
(* Texts of any length (C01, C03, C07, C08).  A text is a sequence of runs *)
(* [s |-> piece, n |-> times]; what must be found in it is given as runs,  *)
(* too, so that judging takes no longer for a long text.  LongMC checks    *)
(* the closed forms against the lexical grammar with texts written out.    *)
(***************************************************************************)
EXTENDS Tokenizer

Quoted(s) == <<QUOTE>> \o s \o <<QUOTE>>
(* Pieces of string literals: characters and escapes, from one unit to a pair of surrogates. *)
StrPieces == {<<97>>, <<98>>, <<10>>, <<32>>, <<128>>, <<233>>, <<8364>>, <<65535>>, <<128512>>,
              <<BACKSLASH, LowN>>, <<BACKSLASH, QUOTE>>, <<BACKSLASH, BACKSLASH>>, <<BACKSLASH, SLASH>>,
              <<BACKSLASH, LowU, 48, 48, 52, 49>>,                                             \* 0041
              <<BACKSLASH, LowU, 100, 56, 51, 100, BACKSLASH, LowU, 100, 101, 48, 48>>}        \* d83d, de00
(* Pieces of identifiers, after a first piece that may start one. *)
IdPieces == {<<97>>, <<90>>, <<95>>, <<36>>, <<48>>, <<57, 98>>}
(* Pieces that are whole tokens, or whole blanks and comments. *)
MixPieces == {<<91>>, <<123>>, <<44>>, <<59>>, <<35>>, <<64, 46>>, <<32>>, <<9>>, <<49, 32>>, <<45, 48, 32>>,
              <<50, 110, 32>>, <<34, 34>>, <<34, 97, 34>>, <<120, 32>>, <<47, 42, 120, 42, 47>>, <<47, 42, 42, 47>>,
              <<49, 50, 120, 32>>}
(* Contents of a block comment: nothing that ends it. *)
NotePieces == {<<97>>, <<SLASH>>, <<LF>>, <<34>>, <<STAR, 97>>, <<233>>}

Content(s) == Tokens(Quoted(s))[1].s
(* What the text holds *)
StrRuns(runs) == [i \in 1..Len(runs) |-> [s |-> Content(runs[i].s), n |-> runs[i].n]]
IdRuns(runs) == runs
MixRuns(runs) == SelectSeq([i \in 1..Len(runs) |-> [k |-> Tokens(runs[i].s), n |-> runs[i].n]], LAMBDA r : r.k # << >>)

(* The UTF-16 form of code points, and of the pieces of a value. *)
Utf16(s) == FoldLeft(LAMBDA acc, c :
              IF c < 65536 THEN Append(acc, c)
              ELSE acc \o <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>, << >>, s)
UnitRuns(runs) == [i \in 1..Len(runs) |-> [s |-> Utf16(runs[i].s), n |-> runs[i].n]]

Expand(runs) == FoldLeft(LAMBDA acc, r : FoldLeft(LAMBDA a, k : a \o r.s, acc, [k \in 1..r.n |-> k]), << >>, runs)
=============================================================================
