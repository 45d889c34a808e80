------------------------------ MODULE AppTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded runs of the converter (C20).                    *)
(*   earlier        runs before it in the same directory: files is what    *)
(*                  they left                                              *)
(*   want           "ok" or "err" if the behaviour it was made of says so  *)
(*   args, valid    the arguments after the name; are the first two text?  *)
(*   files, fault   the files, [p, ok, t], and the read that fails         *)
(*   cfail          creating the output file fails                         *)
(*   wfail          a write to it failed (real: would fail)                *)
(*   ok, msg        success, and was there a message otherwise?            *)
(*   creates        how often it was created (-1: not known)               *)
(*   other, kept    were there calls on other files, are they unchanged?   *)
(*   was, now       content of the output file before and after            *)
(*   res, nodes     what the loader of the implementation reads (the same  *)
(*                  as the specification of the loader)                    *)
(***************************************************************************)
EXTENDS Serial

Files(r) == LET n == Len(r.files) IN
  FoldLeft(LAMBDA f, x : Put(f, x.p, [ok |-> x.ok, toks |-> IF x.ok THEN Tokens(x.t) ELSE << >>]), << >>, r.files)

EndsWith(p, s) == Len(p) >= Len(s) /\ SubSeq(p, Len(p) - Len(s) + 1, Len(p)) = s
DotJson == <<46, 106, 115, 111, 110>>
DotDCjs == <<46, 100, 46, 99, 106, 115>>
DotDMjs == <<46, 100, 46, 109, 106, 115>>
Format(p) == CASE EndsWith(p, DotJson) -> "json" [] EndsWith(p, DotDCjs) -> "cjs" [] EndsWith(p, DotDMjs) -> "mjs"
               [] OTHER -> "none"

Loaded(r, l) ==
  LET out == l.out[1] IN
  /\ out.k = r.res.k
  /\ IF out.k = "err" THEN out.e = r.res.e
     ELSE Match(<<<<out.v, r.res.v>>>>, << >>, l.heap, r.nodes)[1]

G(r) == [v |-> r.res.v, nodes |-> r.nodes]
Written(r, f) == /\ r.now.k = "text"
                 /\ IF f = "json" THEN JsonOk(G(r), [k |-> "ok", t |-> r.now.t]) ELSE ModTextOk(G(r), r.now.t, f)

(* nothing written *)
Nothing(r) == ~r.ok /\ r.msg /\ r.creates <= 0 /\ r.now = r.was

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ ~r.other /\ r.kept
  /\ r.want = "any" \/ r.ok = (r.want = "ok")
  /\ IF Len(r.args) < 2 \/ ~r.valid THEN Nothing(r)
     ELSE LET f == Format(r.args[2]) IN
     IF f = "none" THEN Nothing(r)
     ELSE LET l == RunLoad(Begin(Files(r), r.fault, << >>, << >>, r.args[1])) IN
       /\ Loaded(r, l)
       /\ IF l.out[1].k = "err" \/ (f = "json" /\ HasBad(G(r))) \/ r.cfail THEN Nothing(r)
          ELSE IF r.wfail THEN ~r.ok /\ r.msg
          ELSE r.ok /\ r.creates \in {1, -1} /\ Written(r, f)
=============================================================================
