------------------------------ MODULE TraceBase ------------------------------
(* Judges a recorded trace of calls of the implementation.  Failures(e) is    *)
(* the set of the names of the clauses of the specification that event e      *)
(* breaks; a verdict is total, so one bad event does not hide the others.     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Failures(_)
VARIABLES chunk, l

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == atoi(IOEnv.CHUNK)
NChunks == (Len(Trace) + Chunk - 1) \div Chunk
Last(c) == IF c * Chunk < Len(Trace) THEN c * Chunk ELSE Len(Trace)

TraceInit == /\ chunk \in 1..NChunks
             /\ l = (chunk - 1) * Chunk + 1
TraceNext == /\ l <= Last(chunk)
             /\ \A c \in Failures(Trace[l]) : PrintT(<<"FAIL", l, c>>)
             /\ l' = l + 1
             /\ UNCHANGED chunk
=============================================================================
