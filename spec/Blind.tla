------------------------------- MODULE Blind -------------------------------
(***************************************************************************)
(* Blinding and unblinding of transactions.                                *)
(*                                                                         *)
(* request R:                                                              *)
(*   tx     the transaction (as in Wire), mut: is it the mutable form      *)
(*   typed  every argument has the documented type                         *)
(*   descs  per input [amt: 8 bytes, neg: is the amount negative,          *)
(*                     bf, abf: factors, asset: 32 bytes (zero: unknown)]  *)
(*   opks   output blinding public keys, <<>> for none                     *)
(*   iak, itk  issuance amount / token blinding keys (secrets), <<>> none  *)
(*   aux    auxiliary generators;  strict: the strictness flag             *)
(*   exp, bits  range proof parameters                                     *)
(*                                                                         *)
(* Which requests are refused, what an accepted one does to the            *)
(* transaction and what it reports are stated as relations: the random     *)
(* choices (factors, ephemeral keys, proof selection) are left open.       *)
(***************************************************************************)
EXTENDS Wire, Zkp, Ids, FiniteSets

Null32 == Zeros(32)
Key(keys, i) == IF i <= Len(keys) THEN keys[i] ELSE <<>>
ExplAmt(c)   == SubSeq(c, 2, 9)
ExplAsset(c) == SubSeq(c, 2, 33)
IsFee(o)     == o.script = <<>> /\ CIsExpl("value", o.value) /\ CIsExpl("asset", o.asset)

NIn(R)  == Len(R.tx.vin)
NOut(R) == Len(R.tx.vout)
Iss(R, i)     == R.tx.vin[i].iss
Issues(R, i)  == ~IssIsNull(Iss(R, i))
Reissue(R, i) == Iss(R, i).nonce # Null32

(* --------------------------------------------- what an issuance creates *)
EntropyAt(R, i) == IF Reissue(R, i) THEN Iss(R, i).entropy
                   ELSE Entropy(R.tx.vin[i].hash, R.tx.vin[i].n, Iss(R, i).entropy)
IssAsset(R, i)  == AssetOf(EntropyAt(R, i))
IssToken(R, i)  == TokenOf(EntropyAt(R, i), Key(R.itk, i) # <<>>)

(* --------------------- asset generators a surjection proof ranges over *)
Own(R, i) == IF R.descs[i].asset = Null32
             THEN [tag |-> Null32, gen |-> R.aux[i]]
             ELSE [tag |-> R.descs[i].asset, gen |-> GenOf(R.descs[i].asset, R.descs[i].abf)]
Made(a)   == [tag |-> a, gen |-> GenOf(a, Null32)]
TargetsAt(R, i) ==
  << Own(R, i) >>
  \o (IF Issues(R, i) /\ ~CIsNull(Iss(R, i).amt) THEN << Made(IssAsset(R, i)) >> ELSE <<>>)
  \o (IF Issues(R, i) /\ ~CIsNull(Iss(R, i).keys) THEN << Made(IssToken(R, i)) >> ELSE <<>>)
Extra(R)   == [k \in 1..(IF Len(R.aux) > NIn(R) THEN Len(R.aux) - NIn(R) ELSE 0) |->
                 [tag |-> Null32, gen |-> R.aux[NIn(R) + k]]]
Targets(R) == Cat([i \in 1..NIn(R) |-> TargetsAt(R, i)]) \o Extra(R)
Gens(R)    == LET t == Targets(R) IN [k \in 1..Len(t) |-> t[k].gen]
Matches(R, a) == LET t == Targets(R) IN {k \in 1..Len(t) : t[k].tag = a}

(* ------------------------------------------------- requests not granted *)
IssKeyBad(key, c, proof) == key # <<>> /\ (~CIsExpl("value", c) \/ proof # <<>>)
OutKeyBad(R, i) ==
  LET o == R.tx.vout[i] IN
  Key(R.opks, i) # <<>> /\
  \/ ~IsPoint(R.opks[i])
  \/ ~CIsExpl("value", o.value) \/ ~CIsExpl("asset", o.asset)
  \/ OutWit(R.tx, i) # NullOutWit
  \/ IsFee(o)
  \/ ExplAmt(o.value) = Zeros(8) /\ ~IsUnspendable(o.script)

Shape(R) == /\ R.mut /\ R.typed
            /\ Len(R.opks) <= NOut(R) /\ Len(R.iak) <= NIn(R) /\ Len(R.itk) <= NIn(R)
            /\ Len(R.descs) = NIn(R)
            /\ \A i \in 1..Len(R.descs) : Factor(R.descs[i].bf) /\ Factor(R.descs[i].abf)
            /\ R.aux # <<>> => Len(R.aux) >= NIn(R)
            /\ \A i \in 1..Len(R.aux) : Len(R.aux[i]) = 33
            /\ \A i \in 1..NIn(R) : R.descs[i].asset = Null32 => R.aux # <<>> /\ GenParses(R.aux[i])
            /\ \A i \in 1..Len(R.aux) : i > NIn(R) => GenParses(R.aux[i])
Granted(R) ==
  /\ Shape(R)
  /\ \A i \in 1..NIn(R) :
       LET d == R.descs[i] x == Iss(R, i) w == InWit(R.tx, i) IN
       /\ d.neg => d.bf = Null32 /\ d.abf = Null32
       /\ ~CIsComm("value", x.amt) /\ ~CIsComm("value", x.keys)
       /\ Issues(R, i) /\ Reissue(R, i) => CIsNull(x.keys)
       /\ ~IssKeyBad(Key(R.iak, i), x.amt, w.ar)
       /\ ~IssKeyBad(Key(R.itk, i), x.keys, w.kr)
  /\ \A i \in 1..NOut(R) : ~OutKeyBad(R, i)

(* ------------------------------------------------ what is to be blinded *)
\* in the order of blinding: <<"a", i>> issued amount, <<"t", i>> token, <<"o", i>> output
Asked(R) ==
  Cat([i \in 1..NIn(R) |->
         (IF Key(R.iak, i) # <<>> THEN << <<"a", i>> >> ELSE <<>>)
         \o (IF Key(R.itk, i) # <<>> THEN << <<"t", i>> >> ELSE <<>>)])
  \o SelectSeq([i \in 1..NOut(R) |-> <<"o", i>>], LAMBDA u : Key(R.opks, u[2]) # <<>>)
Owned(R, i) == R.descs[i].bf # Null32 \/ R.descs[i].abf # Null32
NOwned(R)   == Cardinality({i \in 1..NIn(R) : Owned(R, i)})

(* The last factor is determined by the others, so it must be an output's,
   and there must be something else in the sum. *)
Touched(R) ==
  LET a == Asked(R) n == Len(a) IN
  IF n = 0 THEN {}
  ELSE IF a[n][1] # "o" THEN {a[k] : k \in 1..n - 1}
  ELSE IF n = 1 /\ NOwned(R) = 0 THEN {}
  ELSE {a[k] : k \in 1..n}
OutAsset(R, i) == ExplAsset(R.tx.vout[i].asset)
Proved(R)   == {u \in Touched(R) : u[1] = "o" => Matches(R, OutAsset(R, u[2])) # {}}
Count(R)    == Cardinality(Proved(R))
Succeeds(R) == Granted(R) /\ (R.strict => Count(R) = Len(Asked(R)))

(* ------------------------------------- the transaction after a success *)
(* out, w: the blinded output and its witness; bf, abf: reported factors;
   sk: the recipient's secret key *)
OutGen(R, i, abf) == GenOf(OutAsset(R, i), abf)
NonceOf(sk, eph)  == Sha256(Ecdh(sk, eph))
OutRp(R, i, out, bf, abf, sk) ==
  LET o == R.tx.vout[i] IN
  RpOf(R.exp, R.bits, Zeros(7) \o << IF IsUnspendable(o.script) THEN 0 ELSE 1 >>,
       ExplAmt(o.value), bf, OutAsset(R, i) \o abf, NonceOf(sk, out.nonce),
       out.value, out.asset, o.script)

If(c, name) == IF c THEN {name} ELSE {}

OutBlinded(R, i, out, w, bf, abf, sk) ==
  LET o == R.tx.vout[i] g == OutGen(R, i, abf)
      proved == <<"o", i>> \in Proved(R) IN
  If(out.script # o.script, "script-of-blinded-output-changed") \cup
  If(~IsScalar(abf) \/ ~Factor(bf) \/ out.asset # g, "asset-commitment-opens") \cup
  If(out.value # ComOf(out.asset, ExplAmt(o.value), bf), "value-commitment-opens") \cup
  If(~(CIsComm("nonce", out.nonce) /\ IsPoint(out.nonce)), "ephemeral-key") \cup
  IF proved
  THEN If(CIsComm("nonce", out.nonce) /\ IsPoint(out.nonce)
          /\ w.rp # OutRp(R, i, out, bf, abf, sk), "range-proof-of-output") \cup
       LET gs == Gens(R) IN
       If(~SpVerifies(w.sp, gs, out.asset), "surjection-proof-targets") \cup
       If(SpVerifies(w.sp, gs, out.asset) /\
          \A k \in Matches(R, OutAsset(R, i)) : ~Bit(SpMap(w.sp, Len(gs)), k),
          "surjection-proof-selects-no-matching-input")
  ELSE If(w # NullOutWit, "proof-without-matching-input")

(* an issued amount c0 of asset a becomes the commitment c with proof p *)
IssBlinded(R, a, c0, c, p, sk) ==
  LET g == GenOf(a, Null32) v == ExplAmt(c0) IN
  IF ~RpWF(p) THEN {"issuance-range-proof"}
  ELSE If(c # ComOf(g, v, RpBf(p)) \/ ~IsScalar(RpBf(p)), "issuance-commitment-opens") \cup
       If(p # RpOf(R.exp, R.bits, Zeros(8), v, RpBf(p), a \o Null32, sk, c, g, <<>>),
          "issuance-range-proof")

(* the weights on the two sides; issued amounts count as inputs *)
InWeights(R, post) ==
  Cat([i \in 1..NIn(R) |->
    (IF Owned(R, i) THEN << Weight(R.descs[i].amt, R.descs[i].abf, R.descs[i].bf) >> ELSE <<>>)
    \o (IF <<"a", i>> \in Touched(R) THEN << RpBf(post.inwit[i].ar) >> ELSE <<>>)
    \o (IF <<"t", i>> \in Touched(R) THEN << RpBf(post.inwit[i].kr) >> ELSE <<>>)])
OutWeights(R, bfs, abfs) ==
  Cat([i \in 1..NOut(R) |->
    IF <<"o", i>> \in Touched(R)
    THEN << Weight(ExplAmt(R.tx.vout[i].value), abfs[i], bfs[i]) >> ELSE <<>>])
Balances(R, post, bfs, abfs) ==
  SumSc(InWeights(R, post)) = SumSc(OutWeights(R, bfs, abfs))

(* The determined factor can come out as zero, for an amount of zero: that
   output then stays explicit (its weight is zero anyway) and counts as done. *)
LastOut(R)  == Last(Asked(R))
ZeroLast(R, bfs, abfs) ==
  /\ Touched(R) # {} /\ LastOut(R)[1] = "o"
  /\ ExplAmt(R.tx.vout[LastOut(R)[2]].value) = Zeros(8)
  /\ bfs[LastOut(R)[2]] = Null32 /\ abfs[LastOut(R)[2]] = Null32
Changed(R, bfs, abfs) ==
  IF ZeroLast(R, bfs, abfs) THEN Touched(R) \ {LastOut(R)} ELSE Touched(R)

(* sks[i]: secret keys of the recipients; ps: abstract transaction after *)
After(R, ps, n, bfs, abfs, sks) ==
  LET p0 == PadTx(R.tx) p == PadTx(ps) IN
  IF Len(p.vin) # NIn(R) \/ Len(p.vout) # NOut(R) \/ Len(p.inwit) # NIn(R)
     \/ Len(p.outwit) # NOut(R) \/ p.ver # p0.ver \/ p.lock # p0.lock
  THEN {"transaction-reshaped"}
  ELSE IF Len(bfs) # NOut(R) \/ Len(abfs) # NOut(R) THEN {"factors-per-output"}
  ELSE
  LET Done == Changed(R, bfs, abfs)
      Out(i) ==
        IF <<"o", i>> \in Done
        THEN OutBlinded(R, i, p.vout[i], p.outwit[i], bfs[i], abfs[i], Key(sks, i))
        ELSE If(p.vout[i] # p0.vout[i] \/ p.outwit[i] # p0.outwit[i], "other-output-changed")
             \cup If(bfs[i] # Null32 \/ abfs[i] # Null32, "factor-for-output-not-blinded")
      In(i) ==
        LET x == p.vin[i].iss x0 == p0.vin[i].iss w == p.inwit[i] w0 == p0.inwit[i]
            a == <<"a", i>> \in Done t == <<"t", i>> \in Done IN
        If([p.vin[i] EXCEPT !.iss = x0] # p0.vin[i]
           \/ x.nonce # x0.nonce \/ x.entropy # x0.entropy
           \/ w.sw # w0.sw \/ w.pw # w0.pw, "other-input-data-changed") \cup
        (IF a THEN IssBlinded(R, IssAsset(R, i), x0.amt, x.amt, w.ar, R.iak[i])
         ELSE If(x.amt # x0.amt \/ w.ar # w0.ar, "other-issuance-amount-changed")) \cup
        (IF t THEN IssBlinded(R, IssToken(R, i), x0.keys, x.keys, w.kr, R.itk[i])
         ELSE If(x.keys # x0.keys \/ w.kr # w0.kr, "other-token-amount-changed"))
      outs  == {i \in 1..NOut(R) : <<"o", i>> \in Done}
      body  == UNION {Out(i) : i \in 1..NOut(R)} \cup UNION {In(i) : i \in 1..NIn(R)}
      nums  == << abfs, bfs >>
  IN body \cup
     If(n # Count(R), "reported-count") \cup
     If(\E i, j \in outs : i # j /\ (abfs[i] = abfs[j] \/ p.vout[i].nonce = p.vout[j].nonce),
        "secrets-reused") \cup
     \* nothing to balance against unless the last factor was computed
     If(body = {} /\ Touched(R) # {} /\ LastOut(R)[1] = "o" /\ ~Balances(R, p, bfs, abfs), "balance")

(* ------------------------------------------------------------ unblinding *)
(* o: the output's asset, value, nonce and script; sk: the secret key used *)
MaxMoney   == << 0, 7, 117, 240, 90, 7, 64, 0 >>
InMoney(v) == ~NumLT(MaxMoney, v)
NoOpening  == [ok |-> FALSE, amt |-> <<>>, bf |-> <<>>, asset |-> <<>>, abf |-> <<>>]
UnblindOf(sk, o, rp) ==
  LET ecdh   == o.nonce # <<>>
      \* an output without a nonce (an issuance) uses the key as it is, and no script
      nonce  == IF ecdh THEN NonceOf(sk, o.nonce) ELSE sk
      script == IF ecdh THEN o.script ELSE <<>>
      gen    == IF CIsComm("asset", o.asset) THEN o.asset ELSE GenOf(ExplAsset(o.asset), Null32)
  IN
  IF \/ rp = <<>>
     \/ ecdh /\ ~(CIsComm("nonce", o.nonce) /\ IsPoint(o.nonce))
     \/ ~CIsComm("value", o.value) \/ ~ComParses(o.value)
     \/ ~((CIsComm("asset", o.asset) /\ GenParses(o.asset)) \/ CIsExpl("asset", o.asset))
  THEN NoOpening
  ELSE IF ~RpRewinds(rp, nonce, o.value, gen, script) THEN NoOpening
  ELSE LET m == RpMsg(rp) IN
    IF ~InMoney(RpVal(rp)) \/ Len(m) # 64 THEN NoOpening
    ELSE LET a == SubSeq(m, 1, 32) abf == SubSeq(m, 33, 64) IN
      IF ~Factor(abf) THEN NoOpening
      ELSE IF GenOf(a, abf) # gen THEN NoOpening
      ELSE [ok |-> TRUE, amt |-> RpVal(rp), bf |-> RpBf(rp), asset |-> a, abf |-> abf]
=============================================================================
