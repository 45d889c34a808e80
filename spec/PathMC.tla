------------------------------- MODULE PathMC -------------------------------
(***************************************************************************)
(* All paths of up to N characters of `/`, `.` and `a`, built one character*)
(* at a time: the normal form names the same place from every directory,   *)
(* is short, and is a fixed point.                                         *)
(***************************************************************************)
EXTENDS Path
CONSTANT N
VARIABLE p
Init == p = << >>
Next == Len(p) < N /\ \E c \in {SL, 46, 97} : p' = Append(p, c)
Spec == Init /\ [][Next]_p

Dirs == {<< >>, <<<<120>>>>, <<<<120>>, <<121>>>>, <<<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>>>}
SamePlace == \A d \in Dirs : Resolve(d, Normal(p)) = Resolve(d, p)
Short == LET segs == Segments(Normal(p))
             names == IF Absolute(p) THEN Tail(segs) ELSE segs
         IN \/ names = <<<< >>>>                       \* nothing is left
            \/ /\ \A i \in 1..Len(names) : names[i] # << >> /\ names[i] # Dot1
               /\ \A i \in 1..Len(names) : names[i] = Dot2 =>
                     ~Absolute(p) /\ \A j \in 1..i : names[j] = Dot2
KeepsRoot == Absolute(Normal(p)) = Absolute(p)
FixedPoint == Normal(Normal(p)) = Normal(p)
JoinWalks == \A n \in 0..Len(p) :
               LET a == SubSeq(p, 1, n)  b == SubSeq(p, n + 1, Len(p)) IN
               ~Absolute(b) => \A d \in Dirs : Resolve(d, Concat(a, b)) = Resolve(Resolve(d, a), b)
SplitJoins == DirOf(p) # << >> => Resolve(<< >>, DirOf(p) \o <<SL>> \o FileOf(p)) = Resolve(<< >>, p)
=============================================================================
