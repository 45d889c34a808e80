------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* Enumerates a recorded file of executions of the implementation: one     *)
(* state per execution.  The file is read in chunks, so that the workers   *)
(* of TLC share it.  A specification extends this module and checks, as an *)
(* invariant, that the current execution is one it allows.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Recorded == ndJsonDeserialize(IOEnv.CASES)
NRecorded == Len(Recorded)
Chunks == 64
ChunkLen == (NRecorded + Chunks - 1) \div Chunks
ChunkStart(c) == (c - 1) * ChunkLen + 1
ChunkEnd(c) == IF c * ChunkLen > NRecorded THEN NRecorded ELSE c * ChunkLen

VARIABLES chunk, pos
CInit == chunk = 0 /\ pos = 0
CNext == \/ /\ chunk = 0
            /\ chunk' \in {c \in 1..Chunks : ChunkStart(c) <= NRecorded}
            /\ pos' = ChunkStart(chunk')
         \/ /\ chunk # 0
            /\ pos < ChunkEnd(chunk)
            /\ chunk' = chunk
            /\ pos' = pos + 1
Current == Recorded[pos]
AtCase == chunk # 0
=============================================================================
