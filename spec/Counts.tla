------------------------------- MODULE Counts -------------------------------
(***************************************************************************)
(* One object with very many handles (C09).  Direct handles are counted;   *)
(* a fan is an array (or an object) that holds further handles.  What the  *)
(* object is and what it holds does not matter here.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* n: direct handles, fans: how many handles each fan holds *)
Born == [n |-> 1, fans |-> << >>]
Refs(st) == FoldLeft(LAMBDA a, b : a + b, st.n, st.fans)
Alive(st) == Refs(st) > 0
Blocks1(st) == (IF Alive(st) THEN 1 ELSE 0) + Len(st.fans)

Can(st, op) ==
  CASE op[1] = "add" -> st.n > 0
    [] op[1] = "drop" -> op[2] <= st.n
    [] op[1] = "fan" -> st.n > 0
    [] op[1] = "unfan" -> st.fans # << >>
    [] op[1] = "take" -> st.fans # << >> /\ st.fans[Len(st.fans)] > 0
    [] op[1] = "mut" -> st.n > 0

After(st, op) ==
  CASE op[1] = "add" -> [st EXCEPT !.n = @ + op[2]]
    [] op[1] = "drop" -> [st EXCEPT !.n = @ - op[2]]
    [] op[1] = "fan" -> [st EXCEPT !.fans = Append(@, op[2])]
    [] op[1] = "unfan" -> [st EXCEPT !.fans = Front(@)]
    [] op[1] = "take" -> [st EXCEPT !.n = @ + 1]       \* a copy of the last handle in the last fan
    [] op[1] = "mut" -> st

(* Only the only handle can be made mutable (and is then made shared again). *)
Result(st, op) == IF op[1] = "mut" THEN Refs(st) = 1 ELSE TRUE
=============================================================================
