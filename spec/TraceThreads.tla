---------------------------- MODULE TraceThreads ----------------------------
(* Recorded work of several threads, interleaved at many points, judged
   against what the same threads gave one after another. *)
EXTENDS Threads, TraceKit

VARIABLE pos
If(c, name) == IF c THEN {name} ELSE {}
Judge(e) ==
  If(e.stuck, "threads-block-each-other") \cup
  UNION { LET o == e.threads[t].ops[i] IN
          If(~Undisturbed(o.got, o.alone), "other-threads-change-result-of-" \o o.k) :
          << t, i >> \in {p \in (1..Len(e.threads)) \X (1..8) : p[2] <= Len(e.threads[p[1]].ops)} }

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
