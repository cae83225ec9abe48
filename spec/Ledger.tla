------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* A chain of transactions: coins with the openings their owners know,     *)
(* a transaction being put together and blinded, possibly by several       *)
(* parties in turn, and the rules by which everybody else verifies it      *)
(* once it is sealed.                                                      *)
(*                                                                         *)
(*  coin  [op: 36 bytes, out, rp, open: [asset, amt, bf, abf]]             *)
(*  state [coins, spends: indices of the coins spent by the draft,         *)
(*         tx: the draft, opens: per output [asset, amt, bf, abf]]         *)
(***************************************************************************)
EXTENDS Blind

NoTx == [ver |-> Zeros(4), lock |-> Zeros(4), vin |-> <<>>, vout |-> <<>>, inwit |-> <<>>, outwit |-> <<>>]
Fresh == [coins |-> <<>>, spends |-> <<>>, tx |-> NoTx, opens |-> <<>>]

ExplOpen(o) == [asset |-> ExplAsset(o.asset), amt |-> ExplAmt(o.value), bf |-> Null32, abf |-> Null32]
GenOfOut(o) == IF CIsComm("asset", o.asset) THEN o.asset ELSE GenOf(ExplAsset(o.asset), Null32)
WeightOf(n) == Weight(n.amt, n.abf, n.bf)

Fund(s, cs)      == [s EXCEPT !.coins = s.coins \o cs]
Draft(s, tx, sp) == [s EXCEPT !.tx = tx, !.spends = sp,
                     !.opens = [i \in 1..Len(tx.vout) |-> ExplOpen(tx.vout[i])]]
\* a blinding call succeeded and reported these factors
Blinded(s, post, bfs, abfs) ==
  [s EXCEPT !.tx = post,
            !.opens = [i \in 1..Len(s.opens) |->
                         IF i <= Len(bfs) /\ i <= Len(abfs) /\ post.vout[i] # s.tx.vout[i]
                         THEN [s.opens[i] EXCEPT !.bf = bfs[i], !.abf = abfs[i]]
                         ELSE s.opens[i]]]
Seal(s) ==
  LET id == TxId(s.tx) n == Len(s.tx.vout) IN
  [s EXCEPT !.coins = s.coins \o [i \in 1..n |->
               [op |-> id \o LE(i - 1, 4), out |-> s.tx.vout[i], rp |-> OutWit(s.tx, i).rp,
                open |-> s.opens[i]]],
            !.tx = NoTx, !.opens = <<>>, !.spends = <<>>]

(* ------------------------------------------- what a verifier looks at *)
Spent(s, i) == s.coins[s.spends[i]]
\* the token id follows the form of the issued amount
IssIds(x, i) ==
  LET e == IF i.nonce = Null32 THEN Entropy(x.hash, x.n, i.entropy) ELSE i.entropy
  IN [a |-> AssetOf(e), t |-> TokenOf(e, CIsComm("value", i.amt))]
GensAt(s, i) ==
  LET x == s.tx.vin[i] d == IssIds(x, x.iss) IN
  << GenOfOut(Spent(s, i).out) >>
  \o (IF HasIss(x) /\ ~CIsNull(x.iss.amt)  THEN << GenOf(d.a, Null32) >> ELSE <<>>)
  \o (IF HasIss(x) /\ ~CIsNull(x.iss.keys) THEN << GenOf(d.t, Null32) >> ELSE <<>>)
AllGens(s) == Cat([i \in 1..Len(s.tx.vin) |-> GensAt(s, i)])

IssProofBad(c, p, a) == CIsComm("value", c) /\ ~RpVerifies(p, c, GenOf(a, Null32), <<>>)
OutProofs(s, i) ==
  LET o == s.tx.vout[i] w == OutWit(s.tx, i) n == s.opens[i] IN
  If(CIsComm("value", o.value) /\ ~RpVerifies(w.rp, o.value, GenOfOut(o), o.script), "sealed-range-proof") \cup
  If(CIsComm("value", o.value) /\ o.value # ComOf(GenOfOut(o), n.amt, n.bf), "sealed-value-opening") \cup
  If(CIsComm("asset", o.asset) /\ ~SpVerifies(w.sp, AllGens(s), o.asset), "sealed-surjection-proof") \cup
  If(CIsComm("asset", o.asset) /\ o.asset # GenOf(n.asset, n.abf), "sealed-asset-opening")
InProofs(s, i) ==
  LET x == s.tx.vin[i] w == InWit(s.tx, i) d == IssIds(x, x.iss) IN
  If(x.hash \o x.n # Spent(s, i).op, "sealed-input-spends-something-else") \cup
  If(HasIss(x) /\ (IssProofBad(x.iss.amt, w.ar, d.a) \/ IssProofBad(x.iss.keys, w.kr, d.t)),
     "sealed-issuance-proof") \cup
  If(HasIss(x) /\ x.iss.nonce # Null32 /\ x.iss.nonce # Spent(s, i).open.abf,
     "sealed-reissuance-nonce")

(* amounts in and out, per asset; issued amounts count as inputs *)
IssAmt(c, p) == IF CIsComm("value", c) THEN RpVal(p) ELSE ExplAmt(c)
InAmts(s) == Cat([i \in 1..Len(s.tx.vin) |->
  LET x == s.tx.vin[i] w == InWit(s.tx, i) d == IssIds(x, x.iss) IN
  << [asset |-> Spent(s, i).open.asset, amt |-> Spent(s, i).open.amt] >>
  \o (IF HasIss(x) /\ ~CIsNull(x.iss.amt) THEN << [asset |-> d.a, amt |-> IssAmt(x.iss.amt, w.ar)] >> ELSE <<>>)
  \o (IF HasIss(x) /\ ~CIsNull(x.iss.keys) THEN << [asset |-> d.t, amt |-> IssAmt(x.iss.keys, w.kr)] >> ELSE <<>>)])
OutAmts(s) == [i \in 1..Len(s.opens) |-> [asset |-> s.opens[i].asset, amt |-> s.opens[i].amt]]
Total(as, a) == FoldLeft(LAMBDA acc, x : IF x.asset = a THEN NumAdd(acc, x.amt) ELSE acc, Zeros(8), as)
AssetsOf(as) == {as[k].asset : k \in 1..Len(as)}
InW(s) == Cat([i \in 1..Len(s.tx.vin) |->
  LET x == s.tx.vin[i] w == InWit(s.tx, i) IN
  << WeightOf(Spent(s, i).open) >>
  \o (IF HasIss(x) /\ CIsComm("value", x.iss.amt) THEN << RpBf(w.ar) >> ELSE <<>>)
  \o (IF HasIss(x) /\ CIsComm("value", x.iss.keys) THEN << RpBf(w.kr) >> ELSE <<>>)])
OutW(s) == [i \in 1..Len(s.opens) |-> WeightOf(s.opens[i])]

Verify(s) ==
  LET p == UNION {OutProofs(s, i) : i \in 1..Len(s.tx.vout)} \cup UNION {InProofs(s, i) : i \in 1..Len(s.tx.vin)}
  IN p \cup
     If(p = {} /\ \E a \in AssetsOf(InAmts(s)) \cup AssetsOf(OutAmts(s)) :
          Total(InAmts(s), a) # Total(OutAmts(s), a), "sealed-amounts") \cup
     If(p = {} /\ SumSc(InW(s)) # SumSc(OutW(s)), "sealed-balance")
=============================================================================
