----------------------------- MODULE TraceLedger -----------------------------
(* Recorded histories of funding, drafting, blinding by one or more parties,
   sealing and unblinding, judged step by step against Ledger. *)
EXTENDS Ledger, BlindJudge, TraceKit

VARIABLES h, k, st
Steps(n) == Trace[n].steps

TCoin(c) == LET o == TOut(c.out) IN [op |-> Hex2B(c.op), out |-> o, rp |-> <<>>, open |-> ExplOpen(o)]

Apply(s, e) ==
  CASE e.k = "fund"    -> Fund(s, [i \in 1..Len(e.coins) |-> TCoin(e.coins[i])])
    [] e.k = "draft"   -> Draft(s, T(e.tx), e.spends)
    [] e.k = "blind"   -> IF e.res.kind = "ok"
                          THEN Blinded(s, T(e.post), HSeq(e.res.bfs), HSeq(e.res.abfs)) ELSE s
    [] e.k = "seal"    -> Seal(s)
    [] e.k = "unblind" -> s

(* own[i]: the descriptor of input i is one the blinder obtained by unblinding;
   otherwise it knows only the asset commitment *)
Described(s, R, own) ==
  UNION { LET d == R.descs[i] n == Spent(s, i).open IN
          IF own[i] THEN If([asset |-> d.asset, amt |-> d.amt, bf |-> d.bf, abf |-> d.abf] # n,
                            "descriptor-of-own-coin")
          ELSE If(d.asset # Null32 \/ R.aux[i] # GenOfOut(Spent(s, i).out), "description-of-foreign-coin")
        : i \in 1..Len(own) }

Judge(s, e) ==
  CASE e.k = "draft" -> {}
    [] e.k = "fund" ->   \* everybody can write the generator of an asset id
         If(\E i \in 1..Len(e.coins) : e.coins[i].gen # B2Hex(GenOfOut(TOut(e.coins[i].out))), "commitment-of-asset-id")
    [] e.k = "blind" ->
         LET R == TReq(e.req) IN
         If(PadTx(R.tx) # PadTx(s.tx), "transaction-changed-between-steps") \cup
         (IF e.valid THEN If(~Succeeds(R), "driver: request not valid") \cup Described(s, R, e.own) ELSE {}) \cup
         BlindEv(e)
    [] e.k = "seal" ->
         If(e.txid # B2Hex(TxId(s.tx)), "txid-of-sealed-transaction") \cup
         If(e.ser # B2Hex(Ser(s.tx)), "encoding-of-sealed-transaction") \cup Verify(s)
    [] e.k = "unblind" ->
         LET c == s.coins[e.coin] n == c.open r == e.r IN
         If(TOut(e.out) # c.out \/ Hex2B(e.rp) # c.rp, "coin-changed-after-sealing") \cup
         If(e.owner /\ ~(r.kind = "ok" /\ r.amt = B2Hex(n.amt) /\ r.bf = B2Hex(n.bf)
                         /\ r.asset = B2Hex(n.asset) /\ r.abf = B2Hex(n.abf)),
            "owner-does-not-recover-the-coin") \cup
         If(~e.owner /\ r.kind = "ok", "stranger-unblinds-the-coin") \cup
         UnblindEv(e)

Init == h \in 1..Len(Trace) /\ k = 0 /\ st = << Fresh, Fresh >>
Next == /\ k < Len(Steps(h))
        /\ k' = k + 1
        /\ st' = << st[2], Apply(st[2], Steps(h)[k + 1]) >>
        /\ UNCHANGED h
Conforms == k > 0 => Report(h, Judge(st[1], Steps(h)[k]))
=============================================================================
