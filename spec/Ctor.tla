-------------------------------- MODULE Ctor --------------------------------
(***************************************************************************)
(* Objects put together from their parts.  An argument is named by its     *)
(* kind; Verdict says whether a field takes it ("yes", "no", or "any" where *)
(* nothing is promised) and Shown what the made object then holds.         *)
(***************************************************************************)
EXTENDS Bytes

Pat(n, s) == [i \in 1..n |-> (i * 7 + s) % 256]

ByteLens  == {0, 1, 8, 9, 10, 31, 32, 33, 34, 80}
ByteNames == { p \o ToString(n) : p \in {"bytes", "array"}, n \in ByteLens }
ByteLen   == [k \in ByteNames |->
                CHOOSE n \in ByteLens : k \in {"bytes" \o ToString(n), "array" \o ToString(n)}]

(* whole numbers: decimal text, does it fit in 32 bits unsigned, its 8 bytes *)
Whole(d, u, h) == [dec |-> d, u32 |-> u, be |-> h]
Ints ==
  [ int0 |-> Whole("0", TRUE, "0000000000000000"),
    int1 |-> Whole("1", TRUE, "0000000000000001"),
    int5 |-> Whole("5", TRUE, "0000000000000005"),
    int4294967294 |-> Whole("4294967294", TRUE, "00000000fffffffe"),
    int4294967295 |-> Whole("4294967295", TRUE, "00000000ffffffff"),
    int4294967296 |-> Whole("4294967296", FALSE, "0000000100000000"),
    int2147483648 |-> Whole("2147483648", TRUE, "0000000080000000"),
    int2100000000000000 |-> Whole("2100000000000000", FALSE, "000775f05a074000"),
    int9223372036854775807 |-> Whole("9223372036854775807", FALSE, "7fffffffffffffff"),
    int9223372036854775808 |-> Whole("9223372036854775808", FALSE, "") ]
    @@ ("int-1" :> Whole("-1", FALSE, "ffffffffffffffff"))
    @@ ("int-2" :> Whole("-2", FALSE, "fffffffffffffffe"))
IntNames == DOMAIN Ints

Families == {"outpoint", "txin", "txout", "inwit", "outwit", "wit", "tx"}
FieldsOf ==
  [ outpoint |-> <<"hash", "n">>,
    txin     |-> <<"prevout", "scriptSig", "nSequence", "assetIssuance", "is_pegin">>,
    txout    |-> <<"nValue", "scriptPubKey", "nAsset", "nNonce">>,
    inwit    |-> <<"scriptWitness", "issuanceAmountRangeproof", "inflationKeysRangeproof",
                   "pegin_witness">>,
    outwit   |-> <<"surjectionproof", "rangeproof">>,
    wit      |-> <<"vtxinwit", "vtxoutwit">>,
    tx       |-> <<"vin", "vout", "nLockTime", "nVersion", "witness">>,
    value    |-> <<"value_or_commitment">>,
    asset    |-> <<"asset_or_commitment">>,
    nonce    |-> <<"commitment">>,
    issuance |-> <<"assetBlindingNonce", "assetEntropy", "nAmount", "nInflationKeys">>,
    from_asset |-> <<"asset">>, from_amount |-> <<"amount">> ]
Classes == DOMAIN FieldsOf

\* ------------------------------------------------------- small whole objects
BE5 == <<0, 0, 0, 0, 0, 0, 0, 5>>
SerOf ==
  LET op  == Pat(32, 9) \o LE(3, 4)
      in  == op \o <<0>> \o LE(7, 4)
      out == <<1>> \o Pat(32, 2) \o <<1>> \o BE5 \o <<0>> \o VarBytes(Pat(3, 1))
      iw  == VarBytes(Pat(4, 1)) \o <<0, 0, 0>>
      ow  == <<0>> \o VarBytes(Pat(5, 1))
  IN [ outpoint |-> op, txin |-> in, txout |-> out, inwit |-> iw, outwit |-> ow,
       wit |-> iw \o ow,
       tx |-> LE(2, 4) \o <<0, 1>> \o in \o <<1>> \o out \o LE(9, 4) ]
NullInWit == <<0, 0, 0, 0>>
NullOutWit == <<0, 0>>

\* ------------------------------------------------------------------- lists
Forms == {"list", "tuple", "iter", "pair"}
ListNames(el) == { f \o ":" \o e : f \in Forms, e \in {"", el, "m" \o el} }
ListLen(k, el) ==
  IF k \in { f \o ":" : f \in Forms } THEN 0
  ELSE IF k \in { "pair:" \o el, "pair:m" \o el } THEN 2 ELSE 1
IterNames(el) == { "iter:", "iter:" \o el, "iter:m" \o el }

ListEl == [ vin |-> "txin", vout |-> "txout", vtxinwit |-> "inwit", vtxoutwit |-> "outwit" ]
Len0(f, k) == IF k = "omit" THEN 0 ELSE ListLen(k, ListEl[f])

\* ------------------------------------------------- what a field can be given
Proofs  == {"issuanceAmountRangeproof", "inflationKeysRangeproof", "surjectionproof", "rangeproof"}
Scripts == {"scriptSig", "scriptPubKey"}
Uint32s == {"n", "nSequence", "nLockTime"}
YesNo(b) == IF b THEN "yes" ELSE "no"
OfLen(k, ns) == k \in ByteNames /\ ByteLen[k] \in ns

Verdict(f, k, mut) ==
  CASE k = "omit" -> IF f \in {"asset", "amount"} THEN "no" ELSE "yes"
    [] f = "hash" -> IF k \in {"script", "bscript"} THEN "no" ELSE YesNo(OfLen(k, {32}))
    [] f \in Uint32s -> IF k = "true" THEN "any" ELSE YesNo(k \in IntNames /\ (k \in IntNames => Ints[k].u32))
    [] f = "nVersion" -> IF k \in {"int0", "int1", "int5", "none"} THEN "yes"
                         ELSE IF k \in IntNames \cup {"true"} THEN "any" ELSE "no"
    [] f = "prevout" -> IF k \in {"boutpoint", "bmoutpoint"} THEN "any"
                        ELSE YesNo(k \in {"none", "outpoint", "moutpoint"})
    [] f \in Scripts -> YesNo(k \in ByteNames \cup {"none", "script"})
    [] f = "assetIssuance" -> YesNo(k = "issuance")
    [] f = "is_pegin" -> YesNo(k = "true")
    [] f \in {"nValue", "nAmount", "nInflationKeys"} -> YesNo(k \in {"value", "commitment"})
    [] f = "nAsset" -> YesNo(k = "asset")
    [] f = "nNonce" -> YesNo(k = "nonce")
    [] f \in {"scriptWitness", "pegin_witness"} -> YesNo(k = "stack")
    [] f \in Proofs -> IF k \in {"script", "bscript"} THEN "any" ELSE YesNo(k \in ByteNames)
    [] f \in DOMAIN ListEl ->
         IF k \in {"bytes0", "array0", "bscript", "script"} \/ (mut /\ f \in {"vin", "vout"} /\ k \in
                { "iter:" \o e : e \in {"", "txin", "mtxin", "txout", "mtxout", "inwit", "minwit", "outwit",
                                        "moutwit", "outpoint", "int5", "none", "btxin", "btxout", "binwit"} })
         THEN "any" ELSE YesNo(k \in ListNames(ListEl[f]))
    [] f = "witness" -> IF k = "bwit0" THEN "any" ELSE YesNo(k \in {"none", "wit", "mwit"})
    [] f = "value_or_commitment" ->
         IF k = "true" THEN "any"
         ELSE IF k \in IntNames THEN YesNo(Ints[k].be # "") ELSE YesNo(OfLen(k, {0, 9, 33}))
    [] f = "asset_or_commitment" -> YesNo(OfLen(k, {0, 33}) \/ k = "assetid")
    [] f = "commitment" -> YesNo(OfLen(k, {0, 33}))
    [] f \in {"assetBlindingNonce", "assetEntropy"} -> YesNo(k \in {"uint256", "assetid"})
    [] f = "asset" -> YesNo(k = "assetid")
    [] f = "amount" -> IF k = "true" THEN "any"
                       ELSE IF k \in IntNames THEN YesNo(Ints[k].be # "") ELSE "no"

\* ------------------------------------------------------ what is then held
M(mut) == IF mut THEN "m" ELSE ""
Hx(name, b) == name \o ":" \o B2Hex(b)
Bytes0(k) == Pat(ByteLen[k], 1)
RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o "," \o Joined(SubSeq(ts, 2, Len(ts)))
Many(el, n, mut) == (IF mut THEN "list[" ELSE "tuple[")
                    \o Joined([i \in 1..n |-> Hx(M(mut) \o el, SerOf[el])]) \o "]"
Zero32 == Zeros(32)

Shown(f, k, mut) ==
  CASE f = "hash" -> Hx("bytes", IF k = "omit" THEN Zero32 ELSE Bytes0(k))
    [] f \in Uint32s -> "int:" \o (IF k = "omit" THEN (IF f = "nLockTime" THEN "0" ELSE "4294967295")
                                   ELSE Ints[k].dec)
    [] f = "nVersion" -> "int:" \o (IF k \in {"omit", "none"} THEN "2" ELSE Ints[k].dec)
    [] f = "prevout" -> Hx(M(mut) \o "outpoint", IF k \in {"omit", "none"} THEN Zero32 \o Ones32 ELSE SerOf.outpoint)
    [] f \in Scripts -> Hx("script", IF k \in {"omit", "none"} THEN <<>> ELSE IF k = "script" THEN Pat(3, 1) ELSE Bytes0(k))
    [] f = "assetIssuance" ->
         Hx("issuance", IF k = "omit" THEN Zeros(66)
                        ELSE Pat(32, 1) \o Pat(32, 2) \o <<1>> \o BE5 \o <<0>>)
    [] f = "is_pegin" -> IF k = "omit" THEN "F" ELSE "T"
    [] f \in {"nValue", "nAmount", "nInflationKeys"} ->
         Hx("value", IF k = "omit" THEN <<0>> ELSE IF k = "value" THEN <<1>> \o BE5 ELSE <<8>> \o Pat(32, 1))
    [] f = "nAsset" -> Hx("asset", IF k = "omit" THEN <<0>> ELSE <<1>> \o Pat(32, 2))
    [] f = "nNonce" -> Hx("nonce", IF k = "omit" THEN <<0>> ELSE <<2>> \o Pat(32, 1))
    [] f \in {"scriptWitness", "pegin_witness"} ->
         Hx("stack", IF k = "omit" THEN <<0>> ELSE SerVec(<<VarBytes(Pat(2, 1)), <<0>>, VarBytes(Pat(80, 1))>>))
    [] f \in Proofs -> Hx("bytes", IF k = "omit" THEN <<>> ELSE Bytes0(k))
    [] f \in DOMAIN ListEl -> Many(ListEl[f], Len0(f, k), mut)
    [] f \in {"value_or_commitment", "amount"} ->
         IF k \in IntNames THEN "bytes:01" \o Ints[k].be ELSE Hx("bytes", IF k = "omit" THEN <<>> ELSE Bytes0(k))
    [] f \in {"asset_or_commitment", "asset"} ->
         Hx("bytes", IF k = "omit" THEN <<>> ELSE IF k = "assetid" THEN <<1>> \o Pat(32, 2) ELSE Bytes0(k))
    [] f = "commitment" -> Hx("bytes", IF k = "omit" THEN <<>> ELSE Bytes0(k))
    [] f \in {"assetBlindingNonce", "assetEntropy"} ->
         IF k = "assetid" THEN Hx("assetid", Pat(32, 2)) ELSE Hx("uint256", IF k = "omit" THEN Zero32 ELSE Pat(32, 1))
    [] f = "witness" -> ""

(* the witness of a made transaction depends on its inputs and outputs *)
WitShown(k, nin, nout, mut) ==
  Hx(M(mut) \o "wit", IF k \in {"wit", "mwit"} THEN SerOf.wit
                      ELSE IF mut THEN Zeros(4 * nin) \o Zeros(2 * nout) ELSE <<>>)

(* args: the kind of each field of the class *)
Res(cls, args, mut) ==
  LET fs == FieldsOf[cls]
      vs == { Verdict(fs[i], args[i], mut) : i \in 1..Len(fs) }
      nin  == IF cls = "tx" /\ "no" \notin vs /\ "any" \notin vs THEN Len0("vin", args[1]) ELSE 0
      nout == IF cls = "tx" /\ "no" \notin vs /\ "any" \notin vs THEN Len0("vout", args[2]) ELSE 0
  IN IF "any" \in vs THEN "any"
     ELSE IF "no" \in vs THEN "refused"
     \* a witness that belongs to another number of inputs or outputs
     ELSE IF cls = "tx" /\ args[5] \in {"wit", "mwit"} /\ (nin # 1 \/ nout # 1) THEN "any"
     ELSE "made"
Held(cls, args, mut) ==
  LET fs == FieldsOf[cls] IN
  [i \in 1..Len(fs) |->
     IF fs[i] = "witness" THEN WitShown(args[5], Len0("vin", args[1]), Len0("vout", args[2]), mut)
     ELSE Shown(fs[i], args[i], mut)]
=============================================================================
