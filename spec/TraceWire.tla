----------------------------- MODULE TraceWire -----------------------------
(* Recorded observations of transaction encoding, decoding, confidential   *)
(* fields, ids and sizes, judged against Wire.                             *)
EXTENDS Wire, Script, TraceKit

VARIABLE pos

If(c, name) == IF c THEN {name} ELSE {}

(* C01: an object built from abstract tx e.tx *)
RoundTrip(e) ==
  LET tx == T(e.tx) IN
  If(~WF(tx), "generator-outside-domain") \cup
  If(PadTx(T(e.seen)) # PadTx(tx), "fields-as-given") \cup
  If(e.ser # B2Hex(Ser(tx)), "encoding") \cup
  If(e.nowit # B2Hex(NoWitSer(tx)), "encoding-without-witness") \cup
  If(~SameTx(T(e.back), tx), "decoded-equals-original") \cup
  If(~SameTx(T(e.gback), tx), "generic-decoded-equals-original") \cup
  If(~SameTx(T(e.mback), tx), "mutable-decoded-equals-original") \cup
  If(e.reser # e.ser, "reencoding") \cup
  If(e.eq # "T", "equal-after-decoding") \cup
  If(e.rest # e.tail, "stream-position")

(* reserved bits in an index: no encoding, rather than that of another input *)
Raised(x) == Len(x) > 0 /\ SubSeq(x, 1, 1) = "!"
Reserved(e) ==
  If(~\E i \in 1..Len(e.tx.vin) : LET v == TIn(e.tx.vin[i]) IN ~IsNullPrev(v) /\ v.n[4] >= 64,
     "generator-outside-domain") \cup
  If(~Raised(e.ser) \/ ~Raised(e.nowit) \/ ~Raised(e.id) \/ ~Raised(e.partser), "reserved-bits-encoded")

(* a part of a transaction on its own *)
PartSer(w, j) ==
  CASE w = "in" -> InSer(TIn(j)) [] w = "out" -> OutSer(TOut(j))
    [] w = "inwit" -> InWitSer(TInWit(j)) [] w = "outwit" -> OutWitSer(TOutWit(j))
PartParse(w, b) ==
  LET r == CASE w = "in" -> PIn(b, 1) [] w = "out" -> POut(b, 1)
             [] w = "inwit" -> PInWit(b, 1) [] w = "outwit" -> POutWit(b, 1)
  IN IF r.ok /\ r.p = Len(b) + 1 THEN r ELSE Bad
PartJ(w, v) == CASE w = "in" -> JIn(v) [] w = "out" -> JOut(v)
                 [] w = "inwit" -> JInWit(v) [] w = "outwit" -> JOutWit(v)
PartNormJ(w, j) == IF w = "in" THEN JIn(NormIn(TIn(j))) ELSE j
Part(e) ==
  If(e.ser # B2Hex(PartSer(e.w, e.v)), "part-encoding") \cup
  If(e.seen # e.v, "part-fields-as-given") \cup
  If(e.ok # "T" \/ PartNormJ(e.w, e.back) # PartNormJ(e.w, e.v), "part-decoded-equals-original")

(* C02: a byte string given to the decoder *)
ParseEv(e) ==
  LET b == Hex2B(e.b)
      r == Parse(b) IN
  IF e.ok = "T"
  THEN If(~r.ok, "accepted-noncanonical") \cup
       (IF r.ok
        THEN If(NormTx(T(e.tx)) # NormTx(r.v), "decoded-fields") \cup
             If(e.re # B2Hex(Ser(r.v)), "reencoding-of-accepted") \cup
             \* canonical: what is accepted comes back, up to null issuances
             If(Ser(r.v) # b /\ Len(Ser(r.v)) >= Len(b), "specification-not-canonical")
        ELSE {})
  ELSE If(r.ok, "rejected-valid")
ParsePart(e) ==
  LET b == Hex2B(e.b)
      r == PartParse(e.w, b) IN
  IF e.ok = "T"
  THEN If(~r.ok, "part-accepted-noncanonical") \cup
       If(r.ok /\ PartNormJ(e.w, e.v) # PartNormJ(e.w, PartJ(e.w, r.v)), "part-decoded-fields")
  ELSE If(r.ok, "part-rejected-valid")

(* C03: confidential fields *)
Bool(x) == IF x THEN "T" ELSE "F"
ConfEv(e) ==
  LET c == Hex2B(e.raw)
      k == e.kind IN
  IF ~CLenOk(k, c) THEN If(e.res # "!ValueError", "wrong-length-not-refused")
  ELSE If(e.res # "ok", "valid-length-refused") \cup
       (IF e.res = "ok" THEN
         If(e.raw2 # e.raw, "bytes-kept") \cup
         If(e.null # Bool(CIsNull(c)), "is_null") \cup
         If(e.expl # Bool(CIsExpl(k, c)), "is_explicit") \cup
         If(e.comm # Bool(CIsComm(k, c)), "is_commitment") \cup
         If(e.valid # Bool(CIsValid(k, c)), "is_valid") \cup
         If(e.ser # B2Hex(CSer(c)), "field-encoding") \cup
         (IF k = "nonce" THEN {}
          ELSE IF CIsExpl(k, c)
          THEN If(e.open # B2Hex(SubSeq(c, 2, Len(c))), "explicit-content")
          ELSE If(e.open # "!TypeError", "content-of-non-explicit"))
        ELSE {})
ConfFrom(e) == \* built from an amount / asset id given as bytes e.given
  If(e.raw # "01" \o e.given, "explicit-form") \cup
  If(e.open # e.given, "explicit-returned-unchanged")
ConfParse(e) ==
  LET b == Hex2B(e.b)
      r == PConf(e.kind, b, 1)
      ok == r.ok /\ r.p = Len(b) + 1 IN
  IF ok THEN If(e.res # "ok" \/ e.raw # B2Hex(r.v), "field-decoding")
  ELSE If(e.res = "ok", "bad-prefix-or-length-accepted")
FeeEv(e) ==
  LET o == TOut(e.v) IN
  If(e.fee # Bool(o.script = <<>> /\ CIsExpl("value", o.value) /\ CIsExpl("asset", o.asset)),
     "is_fee") \cup
  If(e.null # Bool(CIsNull(o.asset) /\ CIsNull(o.value) /\ CIsNull(o.nonce) /\ o.script = <<>>),
     "output-is_null")
IssEv(e) ==
  LET tx == T(e.tx)
      cnt(i) == (IF CIsNull(i.iss.amt) THEN 0 ELSE 1) + (IF CIsNull(i.iss.keys) THEN 0 ELSE 1) IN
  If(e.num # FoldLeft(LAMBDA a, i : a + cnt(i), 0, tx.vin), "num_issuances") \cup
  If(\E i \in 1..Len(tx.vin) : e.nulls[i] # Bool(IssIsNull(tx.vin[i].iss)), "issuance-is_null")

(* C22 *)
VSizeEv(e) == If(e.vsize # VSize(T(e.tx)), "virtual-size")
OutSizeEv(e) == \* an output paying to an address; e.c: confidential
  LET s == ScriptFor(e.kind, Hex2B(e.pl))
      fit == (IF e.c THEN 3 * 33 ELSE 9 + 1 + 1) + Len(Compact(Len(s))) + Len(s) IN
  If(e.inst # fit, "output-size-of-instance") \cup
  If(e.cls # fit, "output-size-of-class") \cup
  If(e.real # fit, "encoded-output-size")

Judge(e) ==
  CASE e.k = "rt" -> RoundTrip(e) [] e.k = "reserved" -> Reserved(e) [] e.k = "part" -> Part(e)
    [] e.k = "parse" -> ParseEv(e) [] e.k = "parsepart" -> ParsePart(e)
    [] e.k = "conf" -> ConfEv(e) [] e.k = "conffrom" -> ConfFrom(e)
    [] e.k = "confparse" -> ConfParse(e) [] e.k = "fee" -> FeeEv(e) [] e.k = "iss" -> IssEv(e)
    [] e.k = "vsize" -> VSizeEv(e) [] e.k = "outsize" -> OutSizeEv(e)

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
