------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Loading a module and the modules it imports (C05, C06) as a small-step  *)
(* machine.  A state is                                                    *)
(*   files     the file system: path |-> [ok, toks]                        *)
(*   fault     the number of the read that fails (0: none)                 *)
(*   frames    the modules being loaded, each [path, toks, i, p]           *)
(*   heap      all arrays and objects                                      *)
(*   complete  path |-> value of the modules loaded with this cache        *)
(*   progress  paths of the modules that are being loaded                  *)
(*   reads     the reads so far, [p, ok]                                   *)
(*   out       the result, << >> while loading                             *)
(*   cycles    is a path that is complete (from an earlier load) and being *)
(*             loaded again (as the root, from a changed file) a cycle?    *)
(*             Either answer is allowed.                                   *)
(***************************************************************************)
EXTENDS Parser, Path

FrameOf(path, toks) == [path |-> path, toks |-> toks, i |-> 1, p |-> PStart]

CanRead(l, path) == /\ path \in DOMAIN l.files /\ l.files[path].ok
                    /\ Len(l.reads) + 1 # l.fault
DoRead(l, path) == [l EXCEPT !.reads = Append(@, [p |-> path, ok |-> CanRead(l, path)])]

(* A new load with a file system and the heap and cache of earlier loads. *)
Begin(files, fault, heap, complete, root) ==
  LET l == [files |-> files, fault |-> fault, frames |-> << >>, heap |-> heap, complete |-> complete,
            progress |-> {Normal(root)}, reads |-> << >>, out |-> << >>, cycles |-> FALSE]
      ok == CanRead(l, root)
      r == DoRead(l, root)
  IN IF ok THEN [r EXCEPT !.frames = <<FrameOf(root, files[root].toks)>>]
     ELSE [r EXCEPT !.progress = {}, !.out = <<[k |-> "err", e |-> "CannotReadFile"]>>]

(* A load of tokens, as if they had been read from root. *)
BeginTokens(files, fault, heap, complete, root, toks) ==
  [files |-> files, fault |-> fault, frames |-> <<FrameOf(root, toks)>>, heap |-> heap, complete |-> complete,
   progress |-> {}, reads |-> << >>, out |-> << >>, cycles |-> FALSE]

SetTop(l, p) == [l EXCEPT !.frames[Len(l.frames)].p = p]
TopError(l, e) == SetTop(l, [l.frames[Len(l.frames)].p EXCEPT !.m = "error", !.e = e])

(* The top module asks for another one. *)
Import(l) ==
  LET top == Last(l.frames)
      path == Concat(DirOf(top.path), top.p.imp)
  IN CASE path \in DOMAIN l.complete /\ ~(l.cycles /\ path \in l.progress) -> SetTop(l, Resume(top.p, l.complete[path]))
       [] path \in l.progress -> TopError(l, "CircularDependency")
       [] OTHER -> LET ok == CanRead(l, path)
                       r == DoRead(l, path)
                   IN IF ok
                      THEN [r EXCEPT !.progress = @ \cup {path}, !.frames = Append(@, FrameOf(path, l.files[path].toks))]
                      ELSE TopError(r, "CannotReadFile")

(* The top module is at its end. *)
Leave(l) ==
  LET top == Last(l.frames)
      res == PEnd(top.p)
      rest == [l EXCEPT !.frames = Front(@), !.progress = @ \ {Normal(top.path)}]
  IN IF rest.frames = << >> THEN [rest EXCEPT !.out = <<res>>]
     ELSE IF res.k = "ok"
     THEN LET done == [rest EXCEPT !.complete = Put(@, top.path, res.v)]
          IN SetTop(done, Resume(Last(rest.frames).p, res.v))
     ELSE TopError(rest, res.e)

LStep(l) ==
  LET n == Len(l.frames)
      top == l.frames[n]
  IN CASE Waits(top.p) -> Import(l)
       [] top.p.m = "error" \/ top.i > Len(top.toks) -> Leave(l)
       [] OTHER -> LET r == PStep(top.p, l.heap, top.toks[top.i])
                   IN [l EXCEPT !.heap = r.heap, !.frames[n].p = r.p, !.frames[n].i = @ + 1]

Hundred == [i \in 1..100 |-> i]
RECURSIVE RunLoad(_)
RunLoad(l) == IF l.out # << >> THEN l
              ELSE RunLoad(FoldLeft(LAMBDA x, i : IF x.out # << >> THEN x ELSE LStep(x), l, Hundred))
=============================================================================
