------------------------------ MODULE RepeatMC ------------------------------
(***************************************************************************)
(* All histories in bounds; each is printed, without the outputs, to be    *)
(* executed.                                                               *)
(***************************************************************************)
EXTENDS Repeat, Json
CONSTANTS Inputs, Length
Outs == 1..2
VARIABLES hist, seen
Init == hist = << >> /\ seen = Nothing
Used == {hist[k].in : k \in DOMAIN hist}
Steps == [in : {i \in 1..Inputs : \A j \in 1..(i - 1) : j \in Used},   \* inputs are numbered as they come
          mgr : {"global", "local"},
          at : IF hist = << >> THEN {"new"} ELSE {"new", "away", "same", "moved", "beside"},
          out : Outs, once : Outs, twice : Outs]
Next == /\ Len(hist) < Length
        /\ \E s \in Steps :
             /\ s.once = 1
             /\ Allowed(seen, s)
             /\ hist' = Append(hist, s)
             /\ seen' = After(seen, s)
Spec == Init /\ [][Next]_<<hist, seen>>

(* the output depends on the input only *)
Function == \A i, j \in DOMAIN hist : hist[i].in = hist[j].in => hist[i].out = hist[j].out
(* a history of the machine is accepted, and one in which a single run gave something else is not *)
Judged == Fits(Nothing, hist)
Refused == \A k \in DOMAIN hist :
             Fits(Nothing, [hist EXCEPT ![k].out = 3 - @]) <=> \A j \in DOMAIN hist \ {k} : hist[j].in # hist[k].in
Stable == \A k \in DOMAIN hist : ~Fits(Nothing, [hist EXCEPT ![k].twice = 3 - @])
(* what is known is not forgotten *)
Keeps == [][\A i \in DOMAIN seen : i \in DOMAIN seen' /\ seen'[i] = seen[i]]_seen
Emit == (Len(hist) = Length /\ \A k \in DOMAIN hist : hist[k].out = 1) =>
          PrintT("GEN " \o ToJson([steps |-> [k \in DOMAIN hist |->
                                     [in |-> hist[k].in, mgr |-> hist[k].mgr, at |-> hist[k].at]]]))
=============================================================================
