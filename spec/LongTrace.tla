----------------------------- MODULE LongTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded runs on long texts (C01, C03, C07, C08).        *)
(*   f     what the text is: str, id, mix, note (lexed; str also loaded),  *)
(*         val, key (a value that is written and read back)                *)
(*   t     the runs of the text, or of the value                           *)
(*   r     the runs that the code found, in the sizes of the blocks given  *)
(*         by t; a run without equal follows when they do not fit          *)
(* The runs that are found tell exactly what there is: a run ends with the *)
(* first block that differs, and a rest is a run, too.                     *)
(***************************************************************************)
EXTENDS Long, Decimal, Cases

Known(r) == \A i \in 1..Len(r.t) :
  r.t[i].s \in (CASE r.f = "str" -> StrPieces [] r.f = "id" -> IdPieces [] r.f = "mix" -> MixPieces
                  [] r.f = "note" -> NotePieces [] OTHER -> {r.t[i].s})

SameToken(want, got) ==
  /\ want.k = got.k
  /\ CASE want.k = "p" -> want.c = got.c
       [] want.k \in {"id", "str"} -> want.s = got.s
       [] want.k = "err" -> want.e = got.e
       [] want.k = "num" -> IsDouble(got.f) /\ LiteralIs(want, got.f)
       [] want.k = "big" -> IsInt(got.v) /\ BigLiteralIs(want, got.v)
SameTokens(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : SameToken(want[i], got[i])
SameRuns(want, got) ==
  Len(want) = Len(got) /\ \A i \in 1..Len(want) : want[i].n = got[i].n /\ SameTokens(want[i].k, got[i].k)

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok" /\ Known(r)
  /\ CASE r.f = "str" -> r.r = StrRuns(r.t) /\ r.v = UnitRuns(StrRuns(r.t))
       [] r.f = "id" -> r.r = IdRuns(r.t)
       [] r.f = "mix" -> SameRuns(MixRuns(r.t), r.r)
       [] r.f = "note" -> r.r = << >>
       (* written as JSON, or as an ES module and as a CommonJS module; a unit takes six characters at most *)
       [] r.f \in {"val", "key"} ->
            /\ r.same /\ r.outs # << >>
            /\ \A i \in 1..Len(r.outs) : r.outs[i].v = UnitRuns(r.t) /\ r.outs[i].len <= 6 * r.units + 60
=============================================================================
