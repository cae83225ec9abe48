-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* How objects are printed: repr (full = TRUE) and str (full = FALSE).     *)
(* Values are the records of Wire with byte strings; the text of a script  *)
(* (st) and the class prefix "Mutable" (m) are given.                      *)
(***************************************************************************)
EXTENDS Wire, TLC

\* ---------------------------------------------------------------- numbers
\* big-endian bytes divided by ten: <<quotient bytes, remainder>>
DivTen(b) ==
  FoldLeft(LAMBDA acc, d : LET v == acc[2] * 256 + d
                           IN << Append(acc[1], v \div 10), v % 10 >>, << <<>>, 0 >>, b)
RECURSIVE Digits(_)
Digits(b) == LET q == DivTen(b) IN
             (IF \A i \in 1..Len(b) : q[1][i] = 0 THEN "" ELSE Digits(q[1])) \o ToString(q[2])
Flipped(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
\* two's complement of big-endian bytes
Negated(b) ==
  LET r == FoldLeft(LAMBDA acc, d : LET v == (255 - d) + acc[2]
                                    IN << <<v % 256>> \o acc[1], v \div 256 >>, << <<>>, 1 >>, Flipped(b))
  IN r[1]
SignedText(b) == IF b[1] >= 128 THEN "-" \o Digits(Negated(b)) ELSE Digits(b)
LEText(b)     == Digits(Flipped(b))           \* unsigned, little-endian
LESigned(b)   == SignedText(Flipped(b))
\* hexadecimal without leading zeros
HexDigit(n) == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>[n + 1]
RECURSIVE HexText(_)
HexText(b) == IF b = <<>> THEN "0"
              ELSE IF b[1] = 0 THEN HexText(Tail(b))
              ELSE (IF b[1] >= 16 THEN HexDigit(b[1] \div 16) ELSE "") \o HexDigit(b[1] % 16)
                   \o B2Hex(Tail(b))

\* ------------------------------------------------------------------ bytes
BytesText(b) == IF Len(b) > 0 /\ \A i \in 1..Len(b) : b[i] = b[1]
                THEN "x('" \o B2Hex(<<b[1]>>) \o "')*" \o ToString(Len(b))
                ELSE "x('" \o B2Hex(b) \o "')"
RECURSIVE JoinWith(_, _)
JoinWith(ts, sep) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1]
                     ELSE ts[1] \o sep \o JoinWith(Tail(ts), sep)
Call(name, args) == name \o "(" \o JoinWith(args, ", ") \o ")"
Commas(ts) == JoinWith(ts, ", ")

\* ------------------------------------------------------- confidential fields
AssetIdText(id) == "CAsset('" \o B2Hex(Flipped(id)) \o "')"
ConfName == [value |-> "CConfidentialValue", asset |-> "CConfidentialAsset", nonce |-> "CConfidentialNonce"]
ConfText(kind, c, full) ==
  ConfName[kind] \o "(" \o
  (IF kind = "nonce"
   THEN IF full THEN "x('" \o B2Hex(c) \o "')" ELSE "CONFIDENTIAL"
   ELSE IF CIsExpl(kind, c)
        THEN IF kind = "value" THEN SignedText(SubSeq(c, 2, 9)) ELSE AssetIdText(SubSeq(c, 2, 33))
        ELSE IF full THEN BytesText(c) ELSE "CONFIDENTIAL")
  \o ")"

IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
IssText(i, full) ==
  Call("CAssetIssuance",
       (IF IsZero(i.nonce) THEN <<>> ELSE <<"assetBlindingNonce=" \o BytesText(i.nonce)>>) \o
       (IF IsZero(i.entropy) THEN <<>> ELSE <<"assetEntropy=" \o BytesText(i.entropy)>>) \o
       (IF i.amt = <<>> THEN <<>> ELSE <<"nAmount=" \o ConfText("value", i.amt, full)>>) \o
       (IF i.keys = <<>> THEN <<>> ELSE <<"nInflationKeys=" \o ConfText("value", i.keys, full)>>))

\* ------------------------------------------------------------ transactions
Name(m, n) == "CElements" \o (IF m THEN "Mutable" ELSE "") \o n
OutPointText(m, i, full) ==
  IF full
  THEN IF IsZero(i.hash) /\ i.n = Ones32 THEN Name(m, "OutPoint") \o "()"
       ELSE Call(Name(m, "OutPoint"), <<"lx('" \o B2Hex(Flipped(i.hash)) \o "')", LEText(i.n)>>)
  ELSE B2Hex(Flipped(i.hash)) \o ":" \o LEText(i.n)
InText(m, i, full) ==
  Call(Name(m, "TxIn"), << OutPointText(m, i, full), i.st, "0x" \o HexText(Flipped(i.seq)),
                           IssText(i.iss, full), "is_pegin=" \o (IF i.pegin THEN "True" ELSE "False") >>)
OutText(m, o, full) ==
  Call(Name(m, "TxOut"), << ConfText("value", o.value, full), o.st, ConfText("asset", o.asset, full),
                            ConfText("nonce", o.nonce, full) >>)
StackText(ss) == "CScriptWitness([" \o JoinWith([k \in 1..Len(ss) |-> "x('" \o B2Hex(ss[k]) \o "')"], ",") \o "])"
InWitText(m, w) ==
  IF w.ar = <<>> /\ w.kr = <<>> /\ w.sw = <<>> /\ w.pw = <<>> THEN Name(m, "TxInWitness") \o "()"
  ELSE Call(Name(m, "TxInWitness"), <<StackText(w.sw), BytesText(w.ar), BytesText(w.kr), StackText(w.pw)>>)
OutWitText(m, w) ==
  IF w.sp = <<>> /\ w.rp = <<>> THEN Name(m, "TxOutWitness") \o "()"
  ELSE Call(Name(m, "TxOutWitness"), <<BytesText(w.sp), BytesText(w.rp)>>)
List(ts, sep) == "[" \o JoinWith(ts, sep) \o "]"
WitText(m, t) ==
  Call(Name(m, "TxWitness"), << List([k \in 1..Len(t.inwit) |-> InWitText(m, t.inwit[k])], ","),
                                List([k \in 1..Len(t.outwit) |-> OutWitText(m, t.outwit[k])], ",") >>)
TxText(m, t, full) ==
  Call(Name(m, "Transaction"),
       << List([k \in 1..Len(t.vin) |-> InText(m, t.vin[k], full)], ", "),
          List([k \in 1..Len(t.vout) |-> OutText(m, t.vout[k], full)], ", "),
          LEText(t.lock), LESigned(t.ver), WitText(m, t) >>)
=============================================================================
