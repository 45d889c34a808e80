------------------------------ MODULE LayoutMC ------------------------------
(***************************************************************************)
(* The way in which the implementation computes layouts is good for all    *)
(* sizes and alignments: each part starts where the previous one ends,     *)
(* rounded up to the alignment of what follows.  One state for every       *)
(* combination within the bounds.                                          *)
(***************************************************************************)
EXTENDS Layout
CONSTANTS Aligns, MaxUnits, MaxLen

VARIABLES c, h, x, n
vars == <<c, h, x, n>>

Max(a, b) == IF a > b THEN a ELSE b
AlignTo(i, a) == ((i + a - 1) \div a) * a
(* sizes are multiples of the alignment *)
Types == UNION {{[s |-> k * a, a |-> a] : k \in 0..MaxUnits} : a \in Aligns}

Init == c \in {t \in Types : t.s > 0} /\ h \in Types /\ x \in Types /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ UNCHANGED <<c, h, x>>

ObjectAlign == Max(h.a, x.a)
ItemsAt == AlignTo(h.s, x.a)                  \* from the start of the object
ObjectSize == ItemsAt + n * x.s
ObjectAt == AlignTo(c.s, ObjectAlign)
Size == ObjectAt + ObjectSize
Align == Max(c.a, ObjectAlign)

Part(t, at) == [at |-> at, s |-> t.s, a |-> t.a]
Good == GoodLayout(Part(c, 0), Part(h, ObjectAt), Part(x, ObjectAt + ItemsAt), n, Size, Align)

(* A local manager puts a pointer to itself (p) in front of the block. *)
P == [s |-> 8, a |-> 8]
BlockAt == AlignTo(P.s, Align)
GoodLocal == GoodLayout(Part(P, 0), [at |-> BlockAt, s |-> Size, a |-> Align], Part(P, 0), 0,
                        BlockAt + Size, Max(P.a, Align))
=============================================================================
