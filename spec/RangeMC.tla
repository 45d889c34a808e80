------------------------------ MODULE RangeMC ------------------------------
(***************************************************************************)
(* The merge of two range maps, one entry at a time, for all pairs of maps *)
(* with keys 1..N and values 0..V.                                         *)
(***************************************************************************)
EXTENDS RangeMap
CONSTANTS N, V
VARIABLES a, b, i, j, res, st
vars == <<a, b, i, j, res, st>>

Maps == {m \in UNION {[1..n -> (1..N) \X (0..V)] : n \in 0..N} : Sorted(m)}

Init == a \in Maps /\ b \in Maps /\ i = 1 /\ j = 1 /\ res = << >> /\ st = "run"
MoreA == i <= Len(a)
MoreB == j <= Len(b)
Put(e) == res' = Append(res, e)
TakeBoth ==
  /\ st = "run" /\ MoreA /\ MoreB
  /\ LET x == a[i]
         y == b[j]
     IN IF x[2] # 0 /\ y[2] # 0 /\ x[2] # y[2]
        THEN st' = "refused" /\ UNCHANGED <<i, j, res>>
        ELSE /\ Put(<<IF x[1] < y[1] THEN x[1] ELSE y[1], Either(x[2], y[2])>>)
             /\ i' = IF x[1] <= y[1] THEN i + 1 ELSE i
             /\ j' = IF y[1] <= x[1] THEN j + 1 ELSE j
             /\ st' = st
  /\ UNCHANGED <<a, b>>
TakeA == st = "run" /\ MoreA /\ ~MoreB /\ Put(a[i]) /\ i' = i + 1 /\ UNCHANGED <<a, b, j, st>>
TakeB == st = "run" /\ ~MoreA /\ MoreB /\ Put(b[j]) /\ j' = j + 1 /\ UNCHANGED <<a, b, i, st>>
End == st = "run" /\ ~MoreA /\ ~MoreB /\ st' = "done" /\ UNCHANGED <<a, b, i, j, res>>
Next == TakeBoth \/ TakeA \/ TakeB \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AlwaysSorted == Sorted(res)
(* what is done is right for every key so far *)
PrefixRight == \A k \in 1..N : (res # << >> /\ k <= res[Len(res)][1]) =>
                 Lookup(res, k) = Either(Lookup(a, k), Lookup(b, k))
Right == st = "done" => \A k \in 0..(N + 1) :
           /\ Lookup(res, k) = Either(Lookup(a, k), Lookup(b, k))
           /\ Lookup(res, k) = Either(Lookup(b, k), Lookup(a, k))      \* the order does not matter
NeverSilent == /\ st = "done" => ~Conflict(a, b)
               /\ st = "refused" => Conflict(a, b)
ConflictAtKeys == Conflict(a, b) <=> \E k \in 0..(N + 1) : ConflictAt(a, b, k)
Ends == <>(st # "run")
=============================================================================
