----------------------------- MODULE BulkTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded serializations of large values: the value (src) *)
(* and what the loader reads back from each output (back) have the facts   *)
(* of the family, every shared node is one constant, and the output is not *)
(* longer than a small multiple of what it says.                           *)
(***************************************************************************)
EXTENDS Bulk, Cases

Has(w, g) == g.nodes = w.nodes /\ g.shared = w.shared /\ g.refs = w.refs
(* a reference and a definition take at most 40 characters each: names and keys are short *)
Short(w, o) == o.len <= 40 * (w.nodes + w.refs) + 40
OutOk(w, o) == /\ o.k = "ok" /\ o.back.k = "ok"
               /\ o.back.dt = o.dt
               /\ Has(w, o.back) /\ Short(w, o)

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ Has(Facts(r.f, r.n), r.src)
  /\ r.same
  /\ \A i \in 1..Len(r.mods) : /\ OutOk(Facts(r.f, r.n), r.mods[i])
                               /\ r.mods[i].consts = Facts(r.f, r.n).shared
  /\ \A i \in 1..Len(r.json) : /\ OutOk(FlatFacts(r.f, r.n), r.json[i])
                               /\ r.json[i].consts = 0
=============================================================================
