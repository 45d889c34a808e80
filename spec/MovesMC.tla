------------------------------ MODULE MovesMC -------------------------------
(***************************************************************************)
(* All calls in bounds with all their failures; each call is printed to be *)
(* executed by the code.                                                   *)
(***************************************************************************)
EXTENDS Moves, Json, TLC
CONSTANTS MaxLen, MaxFs
Fs == {"keep", "new", "stop", "stopnew"}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<< >>} ELSE Seqs(n - 1) \cup {Append(q, f) : q \in Seqs(n - 1), f \in Fs}
Builds == {[kind |-> "build", claim |-> n, have |-> k, stop |-> p, bad |-> b] :
             n \in {-1} \cup 0..MaxLen, k \in 0..(MaxLen + 1), p \in 0..(MaxLen + 1), b \in 0..MaxLen}
(* one failure at most *)
Calls == {c \in Builds : \/ c.bad = 0 /\ (c.claim = -1 => c.stop = 0)
                         \/ c.stop = 0 /\ c.bad <= c.claim /\ c.claim <= c.have}
         \cup {[kind |-> "modify", fs |-> q] : q \in Seqs(MaxFs)}

VARIABLES call, s
Init == call \in Calls /\ s = Start(call)
Next == s' \in Step(call, s) /\ UNCHANGED call
Spec == Init /\ [][Next]_<<call, s>> /\ WF_<<call, s>>(Next)

Once == \A v \in DOMAIN s.drops : s.drops[v] <= 1
(* what can still be used was not dropped *)
Alive == \A v \in DOMAIN s.place : s.place[v] \in {"iter", "block", "slot", "hand", "none"} => s.drops[v] = 0
(* what was never made is never dropped *)
Made == \A v \in DOMAIN s.place : s.place[v] = "none" => s.drops[v] = 0
(* without a failure nothing is left *)
NoLeak == s.out = "ok" => \A v \in DOMAIN s.place : s.place[v] = "none" \/ s.drops[v] = 1
(* nothing that is not in the block is read *)
Reads == s.pc = "held" => /\ \A k \in 1..Len(s.read) : s.place[s.read[k]] = "block"
                          /\ Cardinality(In(s, "block")) = Len(s.read)
OneSlot == s.pc = "apply" => Cardinality(In(s, "slot")) = 1
(* a failure shows *)
Shows == s.out = "ok" => IF call.kind = "modify" THEN \A k \in 1..Len(call.fs) : call.fs[k] \in {"keep", "new"}
                         ELSE /\ call.claim >= 0 /\ call.have >= call.claim /\ call.bad = 0
                              /\ (call.stop = 0 \/ call.stop > call.claim)
Ends == <>(s.pc = "end")
Emit == s = Start(call) => PrintT("GEN " \o ToJson(call))
=============================================================================
