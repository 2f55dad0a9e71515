------------------------------ MODULE TraceRun ------------------------------
(* Walks through a recorded trace in independent shards and reports every  *)
(* line whose verdict names a clause in Claims.                            *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

CONSTANTS Shards, Claims

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES shard, pos
vars == <<shard, pos>>

Init == shard \in 0..(Shards - 1) /\ pos = 0

\* Consume the next line of the shard; Verdict(line) is a set of clauses.
Step(Verdict(_)) ==
    LET i == shard + 1 + pos * Shards
    IN /\ i <= N
       /\ LET bad == Verdict(Trace[i]) \cap Claims
          IN bad # {} => PrintT(<<"BAD", i, bad>>)
       /\ pos' = pos + 1
       /\ UNCHANGED shard

AllConsumed == TLCGet("stats").distinct = N + Shards
=============================================================================
