------------------------------ MODULE SerTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded serializations (C07, C08).                      *)
(*   g      the value: [v, nodes]                                          *)
(*   same   is the value unchanged afterwards?                             *)
(*   json   (optional) the result of to_json, [k, t]                       *)
(*   mods   (optional) results of to_djs, [cjs, t, back], where back is    *)
(*          what the loader of the implementation reads back               *)
(***************************************************************************)
EXTENDS Serial

ModOk(g, m) ==
  LET dt == IF m.cjs THEN "cjs" ELSE "mjs" IN
  /\ m.k = "ok"
  /\ ModTextOk(g, m.t, dt)
  /\ m.back.k = "ok" /\ m.back.dt = dt
  /\ m.back.v = g.v /\ m.back.nodes = g.nodes

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ r.same
  /\ "json" \in DOMAIN r => JsonOk(r.g, r.json)
  /\ "mods" \in DOMAIN r => \A i \in 1..Len(r.mods) : ModOk(r.g, r.mods[i])
=============================================================================
