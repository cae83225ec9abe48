---------------------------- MODULE TraceSession ----------------------------
(* Recorded uses of the library, with and without failing calls, judged
   against Session. *)
EXTENDS Session, TraceKit

VARIABLE pos
SetOf(q) == {q[i] : i \in 1..Len(q)}
End(e) == Run([Idle EXCEPT !.gens = SetOf(e.old.gens), !.coms = SetOf(e.old.coms)], e.calls)

(* e.asked: how many things were to be blinded; e.hit: a call was made to fail *)
Truth(e, s) ==
  If(e.kind = "ok" /\ ~MayTellSuccess(s, e.strict), "failed-call-told-as-success") \cup
  If(e.kind = "ok" /\ e.op = "blind" /\ e.n > e.asked - s.unalloc, "more-blinded-than-calls-succeeded") \cup
  If(e.kind \notin {"ok", "fail"} /\ SubSeq(e.kind, 1, 1) # "!", "neither-success-nor-failure") \cup
  If(e.kind # "ok" /\ ~e.hit /\ e.granted, "failure-without-a-failing-call") \cup
  If(e.again = "F", "failure-leaves-traces")
Judge(e) == IF e.k = "contract" THEN Contract(End(e)) ELSE Truth(e, End(e))

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
