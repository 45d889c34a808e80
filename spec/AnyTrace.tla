------------------------------ MODULE AnyTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded dynamic values (C11).                           *)
(*   vals   the values put in: k = num (b: four 16-bit words, highest      *)
(*          first), bool (b), null, str / obj / arr / big (n items, for    *)
(*          big neg), copy (of: an earlier position)                       *)
(*   r      what each value gave: t, ref, is (asked as each type), moves   *)
(*          (moved out of a copy), refs, vis, each, again (moves, later)   *)
(*   eq     0 not equal, 1 equal with equal hashes, 2 equal otherwise      *)
(*   early, left   objects freed too early, objects never freed            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Cases

Kinds == <<"num", "bool", "str", "null", "obj", "arr", "big">>
Types == [num |-> "Number", bool |-> "Bool", str |-> "String", null |-> "Null",
          obj |-> "Object", arr |-> "Array", big |-> "Bigint"]
Objects == <<"str", "obj", "arr", "big">>

(* an object is its position, so a copy is the same object *)
RECURSIVE Origin(_, _)
Origin(vals, i) == IF vals[i].k = "copy" THEN Origin(vals, vals[i].of) ELSE i

IsNaN(b) == (b[1] \div 16) % 2048 = 2047 /\ (b[1] % 16 # 0 \/ b[2] # 0 \/ b[3] # 0 \/ b[4] # 0)
IsObject(v) == v.k \in {"str", "obj", "arr", "big"}

(* content x is the value v *)
Is(x, v) ==
  /\ x.k = v.k
  /\ CASE v.k = "num" -> IF IsNaN(v.b) THEN IsNaN(x.b) ELSE x.b = v.b
       [] v.k = "bool" -> x.b = v.b
       [] v.k = "null" -> TRUE
       [] OTHER -> x.xs = [i \in 1..v.n |-> i - 1]
  /\ v.k = "big" => x.neg = v.neg

Refused(x) == x.k = "no"

Asked(m, v, kinds) ==
  /\ Len(m) = Len(kinds)
  /\ \A i \in 1..Len(kinds) : IF kinds[i] = v.k THEN Is(m[i], v) ELSE Refused(m[i])

(* keys and values of the items that an iteration shows which item s refuses *)
Item(v, i) == <<IF v.k = "arr" THEN 500 + i ELSE i, i>>
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Items(_, _)
Items(v, n) == IF n = 0 THEN << >> ELSE Items(v, n - 1) \o Item(v, n - 1)
Iterated(e, v) ==
  LET n == IF v.k \in {"obj", "arr"} THEN v.n ELSE 0 IN
  /\ e.ok = ~(e.stop \in 1..n)
  /\ e.seen = Items(v, IF e.stop \in 1..n THEN e.stop ELSE n)

Good(x, v) ==
  /\ x.t = Types[v.k]
  /\ x.ref = IsObject(v)
  /\ x.is = [i \in 1..7 |-> Kinds[i] = v.k]
  /\ Asked(x.moves, v, Kinds)
  /\ Asked(x.refs, v, Objects)
  /\ Is(x.vis, v)
  /\ \A i \in 1..Len(x.each) : Iterated(x.each[i], v)
  /\ x.again = x.moves

(* 1 equal, 0 not equal, 2 either *)
Equal(vals, i, j) ==
  LET a == Origin(vals, i)
      b == Origin(vals, j)
      v == vals[a]
      w == vals[b]
  IN CASE v.k # w.k -> 0
       [] v.k = "num" -> IF IsNaN(v.b) /\ IsNaN(w.b) THEN IF a = b THEN 1 ELSE 2
                         ELSE IF v.b = w.b THEN 1 ELSE 0
       [] v.k = "bool" -> IF v.b = w.b THEN 1 ELSE 0
       [] v.k = "null" -> 1
       [] OTHER -> IF a = b THEN 1 ELSE 0

Conforms == AtCase => LET r == Current
                          n == Len(r.vals)
                      IN
  /\ r.o = "ok"
  /\ Len(r.r) = n
  /\ \A i \in 1..n : Good(r.r[i], r.vals[Origin(r.vals, i)])
  /\ \A i, j \in 1..n : LET e == Equal(r.vals, i, j) IN
       IF e = 2 THEN r.eq[i][j] \in {0, 1} ELSE r.eq[i][j] = e
  /\ r.early = 0
  /\ r.left = 0
=============================================================================
