------------------------------ MODULE PredsMC ------------------------------
(***************************************************************************)
(* A transaction is written step by step, in any order; after every step   *)
(* the questions have the answers that go with what it then holds.  All    *)
(* histories of Depth steps are carried out on a mutable transaction.      *)
(***************************************************************************)
EXTENDS Preds, Json, TLC

CONSTANTS Depth, MaxIn, MaxOut

VARIABLES tx, hist

X(b)    == Rep(b, 32)
Plain   == [hash |-> X(3), n |-> Zeros(4), script |-> <<>>, seq |-> Ones32, pegin |-> FALSE, iss |-> NullIss]
Pays    == [asset |-> <<1>> \o X(5), value |-> <<1>> \o Zeros(7) \o <<9>>, nonce |-> <<>>, script |-> <<81>>]
Blank   == [asset |-> <<>>, value |-> <<>>, nonce |-> <<>>, script |-> <<>>]

InEdits ==   \* what may be written into an input
  [ default |-> [Plain EXCEPT !.hash = Zeros(32), !.n = Ones32], plain |-> Plain ]
ChangeIn(i, what) ==
  CASE what = "hash0" -> [i EXCEPT !.hash = Zeros(32)]
    [] what = "hash1" -> [i EXCEPT !.hash = [Zeros(32) EXCEPT ![32] = 1]]
    [] what = "n1"    -> [i EXCEPT !.n = Ones32]
    [] what = "n0"    -> [i EXCEPT !.n = Zeros(4)]
    [] what = "seq0"  -> [i EXCEPT !.seq = <<254, 255, 255, 255>>]
    [] what = "seq1"  -> [i EXCEPT !.seq = Ones32]
    [] what = "pegin" -> [i EXCEPT !.pegin = ~@]
    [] what = "issA"  -> [i EXCEPT !.iss = [NullIss EXCEPT !.amt = <<1>> \o Zeros(8)]]
    [] what = "issT"  -> [i EXCEPT !.iss = [NullIss EXCEPT !.keys = <<9>> \o X(2)]]
    [] what = "issN"  -> [i EXCEPT !.iss = [NullIss EXCEPT !.nonce = X(1), !.entropy = X(1)]]
ChangeOut(o, what) ==
  CASE what = "script0" -> [o EXCEPT !.script = <<>>]
    [] what = "script1" -> [o EXCEPT !.script = <<106>>]
    [] what = "scriptX" -> [o EXCEPT !.script = <<76>>]
    [] what = "value0"  -> [o EXCEPT !.value = <<>>]
    [] what = "valueC"  -> [o EXCEPT !.value = <<8>> \o X(4)]
    [] what = "valueM"  -> [o EXCEPT !.value = <<1>> \o MaxMoney]
    [] what = "valueL"  -> [o EXCEPT !.value = <<1>> \o [MaxMoney EXCEPT ![8] = 1]]
    [] what = "valueX"  -> [o EXCEPT !.value = X(1) \o <<1>>]
    [] what = "asset0"  -> [o EXCEPT !.asset = <<>>]
    [] what = "assetC"  -> [o EXCEPT !.asset = <<10>> \o X(4)]
    [] what = "assetX"  -> [o EXCEPT !.asset = <<8>> \o X(4)]
    [] what = "nonceC"  -> [o EXCEPT !.nonce = <<2>> \o X(4)]
    [] what = "nonceX"  -> [o EXCEPT !.nonce = <<10>> \o X(4)]
ChangeInWit(w, what) ==
  CASE what = "ar" -> [w EXCEPT !.ar = IF @ = <<>> THEN <<0>> ELSE <<>>]
    [] what = "kr" -> [w EXCEPT !.kr = IF @ = <<>> THEN <<0>> ELSE <<>>]
    [] what = "sw" -> [w EXCEPT !.sw = IF @ = <<>> THEN << <<>> >> ELSE <<>>]
    [] what = "pw" -> [w EXCEPT !.pw = IF @ = <<>> THEN << <<>> >> ELSE <<>>]
ChangeOutWit(w, what) ==
  CASE what = "sp" -> [w EXCEPT !.sp = IF @ = <<>> THEN <<0>> ELSE <<>>]
    [] what = "rp" -> [w EXCEPT !.rp = IF @ = <<>> THEN <<0>> ELSE <<>>]

Step(t) == hist' = Append(hist, t)
Init == /\ tx = [ver |-> <<2, 0, 0, 0>>, lock |-> Zeros(4), vin |-> <<>>, vout |-> <<>>, inwit |-> <<>>, outwit |-> <<>>]
        /\ hist = <<>>
LastOf(s) == s[Len(s)]
SetEnd(s, v) == [s EXCEPT ![Len(s)] = v]
NewIn == /\ Len(tx.vin) < MaxIn
         /\ \E w \in DOMAIN InEdits : tx' = [tx EXCEPT !.vin = Append(@, InEdits[w])] /\ Step("in+" \o w)
NewOut == /\ Len(tx.vout) < MaxOut
          /\ \E w \in {"blank", "pays"} :
               tx' = [tx EXCEPT !.vout = Append(@, IF w = "blank" THEN Blank ELSE Pays)] /\ Step("out+" \o w)
NewInWit == /\ Len(tx.inwit) < Len(tx.vin)
            /\ tx' = [tx EXCEPT !.inwit = Append(@, NullInWit)] /\ Step("inwit+")
NewOutWit == /\ Len(tx.outwit) < Len(tx.vout)
             /\ tx' = [tx EXCEPT !.outwit = Append(@, NullOutWit)] /\ Step("outwit+")
EditIn == /\ tx.vin # <<>>
          /\ \E w \in {"hash0", "hash1", "n1", "n0", "seq0", "seq1", "pegin", "issA", "issT", "issN"} :
               LET v == ChangeIn(LastOf(tx.vin), w)
               IN v # LastOf(tx.vin) /\ tx' = [tx EXCEPT !.vin = SetEnd(@, v)] /\ Step("in." \o w)
EditOut == /\ tx.vout # <<>>
           /\ \E w \in {"script0", "script1", "scriptX", "value0", "valueC", "valueM", "valueL", "valueX", "asset0",
                        "assetC", "assetX", "nonceC", "nonceX"} :
                LET v == ChangeOut(LastOf(tx.vout), w)
                IN v # LastOf(tx.vout) /\ tx' = [tx EXCEPT !.vout = SetEnd(@, v)] /\ Step("out." \o w)
EditInWit == /\ tx.inwit # <<>>
             /\ \E w \in {"ar", "kr", "sw", "pw"} :
                  tx' = [tx EXCEPT !.inwit = SetEnd(@, ChangeInWit(LastOf(@), w))] /\ Step("inwit." \o w)
EditOutWit == /\ tx.outwit # <<>>
              /\ \E w \in {"sp", "rp"} :
                   tx' = [tx EXCEPT !.outwit = SetEnd(@, ChangeOutWit(LastOf(@), w))] /\ Step("outwit." \o w)
Drop == \/ /\ tx.vin # <<>> /\ Len(tx.inwit) < Len(tx.vin)
           /\ tx' = [tx EXCEPT !.vin = SubSeq(@, 1, Len(@) - 1)] /\ Step("in-")
        \/ /\ tx.vout # <<>> /\ Len(tx.outwit) < Len(tx.vout)
           /\ tx' = [tx EXCEPT !.vout = SubSeq(@, 1, Len(@) - 1)] /\ Step("out-")
Next == Len(hist) < Depth /\
        (NewIn \/ NewOut \/ NewInWit \/ NewOutWit \/ EditIn \/ EditOut \/ EditInWit \/ EditOutWit \/ Drop)

(* how the answers hang together *)
Coinbase    == TxCoinbase(tx) => ~TxNull(tx)
FlagSays    == (Ser(tx)[5] = 1) = HasWit(tx)
FeeSane     == \A k \in 1..Len(tx.vout) : LET o == tx.vout[k] IN
                 /\ OutFee(o) => ~OutNull(o)
                 /\ OutValid(o) => ~OutNull(o)
IssuanceSeen == (Issuances(tx) > 0) = (\E k \in 1..Len(tx.vin) : ~IssIsNull(tx.vin[k].iss))
(* witnesses do not change what the rest is *)
WitApart    == LET bare == [tx EXCEPT !.inwit = <<>>, !.outwit = <<>>]
                   a == Answers(tx)
                   b == Answers(bare)
               IN /\ a.coinbase = b.coinbase /\ a.null = b.null /\ a.ins = b.ins /\ a.outs = b.outs
                  /\ b.haswit = "F"
(* what is valid can be written and read, and then has the same answers *)
Travels     == (WF(tx) /\ \A k \in 1..Len(tx.vout) : OutValid(tx.vout[k])) =>
                 LET r == Parse(Ser(tx)) IN r.ok /\ Answers(PadTx(r.v)) = Answers(PadTx(NormTx(tx)))
Emit == Len(hist) = Depth =>
          PrintT("@C " \o ToJson([hist |-> hist, tx |-> J(tx), ans |-> Answers(tx)]))
(* the same histories, asked for ids (C04): whatever was written and asked before, the
   ids are those of what is there now; what differs on the wire differs in its full hash *)
EmitIds == (Len(hist) = Depth /\ WF(tx)) =>
             PrintT("@C " \o ToJson([hist |-> hist, tx |-> J(tx), ser |-> B2Hex(Ser(tx)),
                                     txid |-> B2Hex(TxId(tx)), full |-> B2Hex(FullHash(tx))]))
BareId  == TxId(tx) = FullHash([tx EXCEPT !.inwit = <<>>, !.outwit = <<>>])
=============================================================================
