------------------------------- MODULE Preds -------------------------------
(***************************************************************************)
(* What may be asked about a transaction and its parts, and the answer.    *)
(* Every question has an answer, at any time, and the answer is about what *)
(* the object holds at that time.                                          *)
(***************************************************************************)
EXTENDS Wire, Script

MaxMoney == <<0, 7, 117, 240, 90, 7, 64, 0>>     \* 21 million coins, 8 bytes big-endian
RECURSIVE AtMost(_, _)
AtMost(a, b) == \/ a = <<>>
                \/ a[1] < b[1]
                \/ a[1] = b[1] /\ AtMost(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))

RECURSIVE ReadableFrom(_, _)
ReadableFrom(s, p) == \/ p > Len(s)
                      \/ LET o == ReadOp(s, p) IN o.ok /\ ReadableFrom(s, o.p)

PrevNull(i)  == i.hash = Zeros(32) /\ i.n = Ones32
InWitNull(w) == w = NullInWit
OutWitNull(w) == w = NullOutWit
OutNull(o)   == o.asset = <<>> /\ o.value = <<>> /\ o.nonce = <<>> /\ o.script = <<>>
OutFee(o)    == o.script = <<>> /\ CIsExpl("value", o.value) /\ CIsExpl("asset", o.asset)
OutValid(o)  == /\ o.asset # <<>> /\ CIsValid("asset", o.asset)
                /\ o.value # <<>> /\ CIsValid("value", o.value)
                /\ CIsExpl("value", o.value) => AtMost(SubSeq(o.value, 2, 9), MaxMoney)
                /\ CIsValid("nonce", o.nonce)
                /\ ReadableFrom(o.script, 1)
TxCoinbase(t) == Len(t.vin) = 1 /\ PrevNull(t.vin[1])
TxNull(t)     == t.vin = <<>> /\ t.vout = <<>>
Issuances(t)  == LET one(c) == IF CIsNull(c) THEN 0 ELSE 1
                 IN FoldLeft(LAMBDA a, i : a + one(i.iss.amt) + one(i.iss.keys), 0, t.vin)

TF(x) == IF x THEN "T" ELSE "F"
Answers(t) ==
  [ coinbase |-> TF(TxCoinbase(t)), null |-> TF(TxNull(t)), haswit |-> TF(HasWit(t)),
    witnull |-> TF(~HasWit(t)), issuances |-> Issuances(t),
    ins |-> [ k \in 1..Len(t.vin) |-> LET i == t.vin[k] IN
              TF(PrevNull(i)) \o TF(i.seq = Ones32) \o TF(i.pegin) \o TF(IssIsNull(i.iss)) ],
    outs |-> [ k \in 1..Len(t.vout) |-> LET o == t.vout[k] IN
               TF(OutNull(o)) \o TF(OutFee(o)) \o TF(OutValid(o)) ],
    inwits |-> [ k \in 1..Len(t.inwit) |-> TF(InWitNull(t.inwit[k])) ],
    outwits |-> [ k \in 1..Len(t.outwit) |-> TF(OutWitNull(t.outwit[k])) ] ]
=============================================================================
