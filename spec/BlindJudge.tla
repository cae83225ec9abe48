----------------------------- MODULE BlindJudge -----------------------------
(* What a recorded blinding or unblinding call must look like.             *)
EXTENDS Blind, TLC

Raised(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = "!"

TReq(j) == [tx |-> T(j.tx), mut |-> j.mut, typed |-> j.typed,
            descs |-> [i \in 1..Len(j.descs) |->
                         [amt |-> Hex2B(j.descs[i].amt), neg |-> j.descs[i].neg,
                          bf |-> Hex2B(j.descs[i].bf), abf |-> Hex2B(j.descs[i].abf),
                          asset |-> Hex2B(j.descs[i].asset)]],
            opks |-> HSeq(j.opks), iak |-> HSeq(j.iak), itk |-> HSeq(j.itk),
            aux |-> HSeq(j.aux), strict |-> j.strict, exp |-> j.exp, bits |-> j.bits]

(* what any result object must look like *)
ResultShape(r) ==
  CASE r.kind = "ok"   -> If(r.ok # "T", "success-not-ok") \cup If(r.err # "", "success-with-error") \cup
                          If(~Raised(r.bool), "result-used-as-truth-value") \cup
                          If(r.typed # "T", "success-ill-typed")
    [] r.kind = "fail" -> If(r.ok # "F", "failure-is-ok") \cup If(r.err = "", "failure-without-message") \cup
                          If(~Raised(r.bool), "result-used-as-truth-value")
    [] Raised(r.kind)  -> {}
    [] OTHER           -> {"not-a-result"}

BlindEv(e) ==
  LET R == TReq(e.req) r == e.res IN
  ResultShape(r) \cup
  IF ~Granted(R)
  THEN If(r.kind = "ok", "inconsistent-request-accepted") \cup
       If(e.post # e.req.tx, "refused-request-changed-transaction") \cup
       If(e.ser # e.ser0, "refused-request-changed-encoding")
  ELSE IF ~Succeeds(R)
  THEN If(r.kind = "ok", "incomplete-blinding-reported-as-success") \cup
       If(Raised(r.kind), "exception-instead-of-failure")
  ELSE IF r.kind # "ok" THEN {"valid-request-refused"}
  ELSE LET p == T(e.post) c == After(R, p, r.n, HSeq(r.bfs), HSeq(r.abfs), HSeq(e.sks)) IN
       c \cup If(c = {} /\ e.ser # B2Hex(Ser(p)), "encoding-of-blinded-transaction") \cup
       If(c = {} /\ e.back # "T", "blinded-transaction-does-not-read-back")

(* e.kind: how it was called; e.r: the result *)
UnblindEv(e) ==
  LET u == UnblindOf(Hex2B(e.sk), TOut(e.out), Hex2B(e.rp)) r == e.r IN
  ResultShape(r) \cup
  IF ~u.ok THEN If(r.kind = "ok", "unblinded-with-wrong-data") \cup
                If(Raised(r.kind), "exception-instead-of-failure")
  ELSE IF r.kind # "ok" THEN {"right-key-does-not-unblind"}
  ELSE If(r.amt # B2Hex(u.amt), "unblinded-amount") \cup If(r.bf # B2Hex(u.bf), "unblinded-factor") \cup
       If(r.asset # B2Hex(u.asset), "unblinded-asset") \cup If(r.abf # B2Hex(u.abf), "unblinded-asset-factor") \cup
       If(r.desc # "T", "unblinding-result-as-input-description")
=============================================================================
