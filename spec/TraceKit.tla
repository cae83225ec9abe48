------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Checking a recorded trace whose events are independent observations.    *)
(* The state walks the trace in NChunks interleaved lanes, so TLC's        *)
(* workers share the work.  Judge(e) is the set of clauses of the          *)
(* specification that event e breaks; each one is reported.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace   == ndJsonDeserialize(IOEnv.TRACE)
NChunks == 16
Lane(k) == {k} \cap 1..Len(Trace)

Report(l, names) == \A c \in names : PrintT("@F " \o ToString(l) \o " " \o c)
=============================================================================
