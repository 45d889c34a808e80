-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Slash-separated paths (C19).  A path is a sequence of code points; its  *)
(* meaning is the walk through directories that its segments describe.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

SL == 47
Dot1 == <<46>>
Dot2 == <<46, 46>>

(* the segments between slashes *)
Segments(p) ==
  LET r == FoldLeft(LAMBDA acc, c :
             IF c = SL THEN [done |-> Append(acc.done, acc.cur), cur |-> << >>]
             ELSE [acc EXCEPT !.cur = Append(@, c)],
             [done |-> << >>, cur |-> << >>], p)
  IN Append(r.done, r.cur)
Absolute(p) == p # << >> /\ p[1] = SL

(* Walking from a directory, which is the sequence of names below the root.  The parent of the root
   is the root. *)
Walk(dir, segs) ==
  FoldLeft(LAMBDA d, s :
    CASE s = << >> \/ s = Dot1 -> d
      [] s = Dot2 -> IF d = << >> THEN d ELSE Front(d)
      [] OTHER -> Append(d, s), dir, segs)
Resolve(dir, p) == Walk(IF Absolute(p) THEN << >> ELSE dir, Segments(p))

(* The shortest segments with the same walk from every directory: `..` only to leave the start. *)
Shorten(abs, segs) ==
  FoldLeft(LAMBDA d, s :
    CASE s = << >> \/ s = Dot1 -> d
      [] s = Dot2 -> IF d # << >> /\ Last(d) # Dot2 THEN Front(d) ELSE IF abs THEN d ELSE Append(d, s)
      [] OTHER -> Append(d, s), << >>, segs)
JoinSegs(segs) == FoldLeft(LAMBDA acc, s : IF acc = << >> THEN s ELSE acc \o <<SL>> \o s, << >>, segs)
Normal(p) == (IF Absolute(p) THEN <<SL>> ELSE << >>) \o JoinSegs(Shorten(Absolute(p), Segments(p)))

(* a relative path walked from a directory *)
RECURSIVE TrimSlashes(_)
TrimSlashes(p) == IF Absolute(p) THEN TrimSlashes(Tail(p)) ELSE p
Concat(a, b) == IF a = << >> THEN Normal(TrimSlashes(b)) ELSE Normal(a \o <<SL>> \o b)

LastSlash(p) == SelectLastInSeq(p, LAMBDA c : c = SL)
DirOf(p) == LET n == LastSlash(p) IN
            IF n = 0 THEN << >> ELSE IF n = 1 THEN <<SL>> ELSE SubSeq(p, 1, n - 1)
FileOf(p) == SubSeq(p, LastSlash(p) + 1, Len(p))
=============================================================================
