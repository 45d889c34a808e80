----------------------------- MODULE LayoutTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded blocks (C21).                                   *)
(*   base, size, align   address (modulo 2^20) and layout of the block     *)
(*   c, h, x             counter, header, first element: at, s, a          *)
(*   at                  where the elements are                            *)
(*   first               the elements after construction                  *)
(*   w, after            elements written (to 100 + i), all elements then  *)
(*   shared, last        the elements seen by a shared reference, and by   *)
(*                       the mutable reference that it becomes             *)
(*   writes, drops       what was dropped by the writes, by the end        *)
(***************************************************************************)
EXTENDS Layout, Blocks, Cases

Id(k) == 1 + (k % 250)
Made(r, i) == IF r.same THEN 7 ELSE Id(i)                     \* element i from 0
New(r, i) == IF r.same THEN 7 ELSE Id(100 + i)
Start(r) == [i \in 1..r.n |-> Made(r, i - 1)]
Write(r, seq, i) == [seq EXCEPT ![i + 1] = New(r, i)]
States(r) == FoldLeft(LAMBDA acc, i : Append(acc, Write(r, acc[Len(acc)], i)), <<Start(r)>>, r.w)
(* how often each of 0..255 occurs *)
Counts(seq) == FoldLeft(LAMBDA f, x : [f EXCEPT ![x] = @ + 1], [i \in 0..255 |-> 0], seq)
SameBag(s, t) == Len(s) = Len(t) /\ (\A i \in 1..Len(s) : s[i] \in 0..255) /\ Counts(s) = Counts(t)
(* what a write replaces *)
Replaced(r) == LET st == States(r) IN [k \in 1..Len(r.w) |-> st[k][r.w[k] + 1]]

Conforms == AtCase => LET r == Current IN
  /\ r.o = "ok"
  /\ GoodLayout(r.c, r.h, r.x, r.n, r.size, r.align)
  /\ (r.base + r.c.at) % r.c.a = 0 /\ (r.base + r.h.at) % r.h.a = 0 /\ (r.base + r.x.at) % r.x.a = 0
  /\ r.len = r.n
  /\ r.at = [i \in 1..r.n |-> r.x.at + (i - 1) * r.x.s]
  /\ r.osize + r.h.at <= r.size
  \* contents
  /\ LET st == States(r) IN
     /\ r.first = st[1]
     /\ r.after = Tail(st)
     /\ r.shared = st[Len(st)] /\ r.last = r.shared
  /\ r.head = <<TRUE, TRUE, TRUE>>
  /\ r.back
  \* drops
  /\ r.early = 0 /\ r.kept = 0
  /\ r.writes = IF r.xdrops THEN Replaced(r) ELSE << >>
  /\ LET st == States(r)
         items == IF r.xdrops THEN st[Len(st)] ELSE << >>
         header == IF r.hdrops THEN <<1000 + r.n>> ELSE << >>
     IN /\ SelectSeq(r.drops, LAMBDA d : d >= 1000) = header
        /\ SameBag(SelectSeq(r.drops, LAMBDA d : d < 1000), items)
  \* memory
  /\ MemoryOk(r)
  /\ Len(r.ev) = 2
=============================================================================
