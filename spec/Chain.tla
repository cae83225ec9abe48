------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* The selected chain.  Every lane (a thread, or a copied context) has the *)
(* chain selected now and the chains to go back to when the temporary      *)
(* selections it is in are left.                                           *)
(***************************************************************************)
EXTENDS Address

Networks == {"bitcoin", "bitcoin/testnet", "bitcoin/regtest", "bitcoin/signet",
             "elements", "elements/liquidv1"}
\* names that may be asked for, and the network each one means
Alias == [n \in Networks \cup {"bitcoin/mainnet", "elements/elementsregtest"} |->
            CASE n = "bitcoin/mainnet" -> "bitcoin"
              [] n = "elements/elementsregtest" -> "elements"
              [] OTHER -> n]
Known(n) == n \in DOMAIN Alias

NewLane(c)  == [cur |-> c, saved |-> << >>]
(* each operation gives the lane afterwards and the outcome *)
Select(s, n) == IF Known(n) THEN [lane |-> [s EXCEPT !.cur = Alias[n]], out |-> "ok"]
                ELSE [lane |-> s, out |-> "unknown"]
Enter(s, n)  == IF Known(n) THEN [lane |-> [cur |-> Alias[n], saved |-> Append(s.saved, s.cur)], out |-> "ok"]
                ELSE [lane |-> s, out |-> "unknown"]
Leave(s)     == [lane |-> [cur |-> s.saved[Len(s.saved)], saved |-> SubSeq(s.saved, 1, Len(s.saved) - 1)],
                 out |-> "ok"]

(* ------------------------------------------ what each network looks like *)
IsElements(c) == c \in Nets
FamilyOf(c)  == IF IsElements(c) THEN "Elements" ELSE "Bitcoin"
VariantOf(c) == CASE c = "bitcoin" -> "Bitcoin" [] c = "bitcoin/testnet" -> "BitcoinTestnet"
                [] c = "bitcoin/regtest" -> "BitcoinRegtest" [] c = "bitcoin/signet" -> "BitcoinSignet"
                [] c = "elements" -> "Elements" [] c = "elements/liquidv1" -> "ElementsLiquidV1"
ParamsOf(c) == (IF c = "bitcoin" THEN "BitcoinMainnet" ELSE VariantOf(c)) \o "Params"
ReadableName(c) == CASE c = "bitcoin" -> "Bitcoin" [] c = "bitcoin/testnet" -> "Bitcoin testnet"
                 [] c = "bitcoin/regtest" -> "Bitcoin regtest" [] c = "bitcoin/signet" -> "Bitcoin signet"
                 [] c = "elements" -> "Elements" [] c = "elements/liquidv1" -> "Elements liquidv1"
PortOf(c)  == CASE c = "bitcoin" -> "8332" [] c = "bitcoin/testnet" -> "18332"
              [] c = "bitcoin/regtest" -> "18443" [] c = "bitcoin/signet" -> "38332"
              [] c = "elements" -> "7041" [] c = "elements/liquidv1" -> "7042"
DataDir(c) == CASE c = "bitcoin" -> "" [] c = "bitcoin/testnet" -> "testnet3"
              [] c = "bitcoin/regtest" -> "regtest" [] c = "bitcoin/signet" -> "signet"
              [] c = "elements" -> "elementsregtest" [] c = "elements/liquidv1" -> "liquidv1"
NetId(c) == CASE c = "bitcoin" -> "main" [] c = "bitcoin/testnet" -> "test" [] OTHER -> DataDir(c)
Dir(c) == IF IsElements(c) THEN "elements" ELSE "bitcoin"

(* generic names of the core classes, and the class that comes out *)
CoreNames == {"Transaction", "TxIn", "TxOut", "OutPoint", "TxWitness", "TxInWitness", "TxOutWitness"}
CoreClass(c, n, mut) ==
  IF n = "TxOutWitness" /\ ~IsElements(c)
  THEN "_CBitcoinDummy" \o (IF mut THEN "Mutable" ELSE "") \o n
  ELSE "C" \o FamilyOf(c) \o (IF mut THEN "Mutable" ELSE "") \o n

KindName == [p2pkh |-> "P2PKH", p2sh |-> "P2SH", p2wpkh |-> "P2WPKH", p2wsh |-> "P2WSH", p2tr |-> "P2TR"]
Kinds == DOMAIN KindName
\* the payload used for addresses, and the blinding key of confidential ones
Payload(k) == Rep(7, PayloadLen(k))
AnyKey     == << 2 >> \o Rep(2, 32)
AddrOf(c, k, conf) == [net |-> c, kind |-> k, conf |-> conf,
                       data |-> IF conf THEN AnyKey \o Payload(k) ELSE Payload(k)]

TagText(c, t) == Chars(IF IsElements(c) THEN t \o "/elements" ELSE t)
TagOf(c, t)   == LET h == Sha256(TagText(c, t)) IN B2Hex(Sha256(h \o h))

(* what can be seen in a lane: pairs of a name and a text *)
Common(c) ==
  { << "params", ParamsOf(c) >>, << "name", c >>, << "readable", ReadableName(c) >>,
    << "port", PortOf(c) >>, << "extra", DataDir(c) >>, << "netid", NetId(c) >>,
    << "confdir", "/." \o Dir(c) >>, << "conf", "/." \o Dir(c) \o "/" \o Dir(c) \o ".conf" >>,
    << "CScript", "C" \o FamilyOf(c) \o "Script" >>,
    << "ScriptTree", "Taproot" \o FamilyOf(c) \o "ScriptTree" >>,
    << "Key", "C" \o VariantOf(c) \o "Key" >>,
    << "ExtKey", "C" \o VariantOf(c) \o "ExtKey" >>,
    << "ExtPubKey", "C" \o VariantOf(c) \o "ExtPubKey" >>,
    << "leafversion", IF IsElements(c) THEN "196" ELSE "192" >>,
    << "maxmoney", "2100000000000000" >>,
    << "tweaktag", TagOf(c, "TapTweak") >>, << "leaftag", TagOf(c, "TapLeaf") >>,
    << "branchtag", TagOf(c, "TapBranch") >>, << "sighashtag", TagOf(c, "TapSighash") >> }
  \cup { << "C" \o n, CoreClass(c, n, FALSE) >> : n \in CoreNames }
  \cup { << "CMutable" \o n, CoreClass(c, n, TRUE) >> : n \in CoreNames }
  \cup { << k, KindName[k] \o VariantOf(c) \o "Address" >> : k \in Kinds }
  \cup { << k \o "spk", KindName[k] \o VariantOf(c) \o "Address" >> : k \in Kinds }
ElementsOnly(c) ==
  { << "ctexponent", "0" >>, << "ctbits", "52" >> }
  \cup { << k \o "text", FromChars(AddrText(AddrOf(c, k, FALSE))) >> : k \in Kinds }
  \cup { << k \o "conf", ClassName(AddrOf(c, k, TRUE)) >> : k \in Kinds }
  \cup { << k \o "conftext", FromChars(AddrText(AddrOf(c, k, TRUE))) >> : k \in Kinds }
  \cup { << k \o "read", ClassName(AddrOf(c, k, FALSE)) >> : k \in Kinds }
  \cup { << k \o "confread", ClassName(AddrOf(c, k, TRUE)) >> : k \in Kinds }
  \cup { << k \o "unconf", ClassName(AddrOf(c, k, FALSE)) >> : k \in Kinds }
  \* the parts of a parsed transaction with witness data
  \cup { << "parsed", "CElementsOutPoint CElementsScript CElementsTransaction CElementsTxIn CElementsTxInWitness CElementsTxOut CElementsTxOutWitness CElementsTxWitness" >>,
         << "parsedmutable", "CElementsMutableOutPoint CElementsMutableTransaction CElementsMutableTxIn CElementsMutableTxInWitness CElementsMutableTxOut CElementsMutableTxOutWitness CElementsMutableTxWitness CElementsScript" >> }
View == [c \in Networks |-> Common(c) \cup (IF IsElements(c) THEN ElementsOnly(c) ELSE {})]
=============================================================================
