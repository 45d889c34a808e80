------------------------------ MODULE CountsMC ------------------------------
(***************************************************************************)
(* The counter of the implementation, which is one less than the number    *)
(* of handles: a new handle adds one, a dropped handle takes one and       *)
(* frees the object if the counter was zero.  It agrees with Counts.       *)
(***************************************************************************)
EXTENDS Counts, TLC
CONSTANTS MaxRefs, MaxFans, Steps

VARIABLES st, counter, freed
vars == <<st, counter, freed>>

Init == st = Born /\ counter = 0 /\ freed = 0

RECURSIVE Release(_, _, _)
(* drops k handles; f: how often the object was freed *)
Release(c, f, k) == IF k = 0 THEN <<c, f>> ELSE Release(c - 1, IF c = 0 THEN f + 1 ELSE f, k - 1)

Ops == {<<"add", k>> : k \in Steps} \union {<<"drop", k>> : k \in Steps} \union {<<"fan", k>> : k \in 0..3}
       \union {<<"unfan", 0>>, <<"take", 0>>, <<"mut", 0>>}

Next == \E op \in Ops :
  /\ Can(st, op)
  /\ LET t == After(st, op) IN
     /\ Refs(t) <= MaxRefs /\ Len(t.fans) <= MaxFans
     /\ st' = t
     /\ LET d == Refs(t) - Refs(st)
            r == IF d >= 0 THEN <<counter + d, freed>> ELSE Release(counter, freed, -d)
        IN counter' = r[1] /\ freed' = r[2]

CounterRight == counter = Refs(st) - 1
FreedOnce == freed = IF Alive(st) THEN 0 ELSE 1
MutableRight == st.n > 0 => (Result(st, <<"mut", 0>>) <=> counter = 0)
=============================================================================
