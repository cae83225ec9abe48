----------------------------- MODULE TracePreds -----------------------------
(* Recorded answers to questions about transactions, judged against Preds.  *)
EXTENDS Preds, TraceKit

VARIABLE pos
If(c, name) == IF c THEN {name} ELSE {}

AskEv(e) == \* e.tx: what the object holds; e.ans: what it answers
  LET w == Answers(T(e.tx))
      a == e.ans IN
  If(a.coinbase # w.coinbase, "transaction-is_coinbase") \cup
  If(a.null # w.null, "transaction-is_null") \cup
  If(a.haswit # w.haswit, "transaction-has_witness") \cup
  If(a.witnull # w.witnull, "witness-is_null") \cup
  If(a.issuances # w.issuances, "num_issuances") \cup
  If(a.ins # w.ins, "input-predicates") \cup
  If(a.outs # w.outs, "output-predicates") \cup
  If(a.inwits # w.inwits, "input-witness-is_null") \cup
  If(a.outwits # w.outwits, "output-witness-is_null")
(* a question that was not asked is no answer *)
BareEv(e) == If(e.res # "!TypeError", "predicate-taken-for-its-answer")

Judge(e) == CASE e.k = "ask" -> AskEv(e) [] e.k = "bare" -> BareEv(e)

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
