----------------------------- MODULE TraceBlind -----------------------------
(* Recorded blinding and unblinding calls judged against Blind.            *)
EXTENDS BlindJudge, RangeInfo, TraceKit

VARIABLE pos
(* construction of result objects *)
MadeEv(e) == IF e.good THEN If(Raised(e.res), e.what) \cup
                            IF Raised(e.res) THEN {}
                            ELSE ResultShape(e.r) \cup If(e.r.err # e.msg, "error-text-of-result")
             ELSE If(~Raised(e.res), e.what)

(* a look at a range proof *)
InfoEv(e) == LET i == InfoOf(Hex2B(e.p)) r == e.r IN
  IF ~i.ok THEN If(r.ok # "F", "information-about-no-proof")
  ELSE IF r.ok # "T" THEN {"no-information-about-proof"}
  ELSE If(r.exp # i.exp, "exponent") \cup If(r.mant # i.mant, "size") \cup
       If(r.min # B2Hex(i.min), "smallest-amount") \cup If(r.max # B2Hex(i.max), "largest-amount")

Judge(e) == CASE e.k = "blind" -> BlindEv(e) [] e.k = "unblind" -> UnblindEv(e) [] e.k = "made" -> MadeEv(e)
              [] e.k = "info" -> InfoEv(e)

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
