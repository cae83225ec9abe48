------------------------------ MODULE Address ------------------------------
(***************************************************************************)
(* Address and key strings of the two Elements networks.  An      *)
(* address is [net, kind, conf, data]; data is the payload of a plain and  *)
(* blinding key \o payload of a confidential address.                      *)
(***************************************************************************)
EXTENDS Script, Bech

Nets  == {"elements", "elements/liquidv1"}
Hdr(net) == IF net = "elements"
            THEN [pkh |-> 235, sh |-> 75, conf |-> 4, bech |-> Chars("ert"), blech |-> Chars("el"),
                  xpub |-> <<4, 53, 135, 207>>, xprv |-> <<4, 53, 131, 148>>, wif |-> <<239>>, cls |-> "Elements"]
            ELSE [pkh |-> 57, sh |-> 39, conf |-> 12, bech |-> Chars("ex"), blech |-> Chars("lq"),
                  xpub |-> <<4, 136, 178, 30>>, xprv |-> <<4, 136, 173, 228>>, wif |-> <<128>>, cls |-> "ElementsLiquidV1"]

IsB58(kind) == kind \in {"p2pkh", "p2sh"}
WitVer(kind) == IF kind = "p2tr" THEN 1 ELSE 0
DataLen(kind, conf) == PayloadLen(kind) + (IF conf THEN 33 ELSE 0)

(* --------------------------------------------------------------- base 58 *)
B58 == Chars("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
B58Tab == [c \in 0..127 |-> IF \E i \in 1..58 : B58[i] = c
                            THEN (CHOOSE i \in 1..58 : B58[i] = c) - 1 ELSE -1]
B58Val(c) == IF c \in 0..127 THEN B58Tab[c] ELSE -1

(* digits little-endian in base `base`: multiply by m, add a *)
MulAdd(ds, m, a, base) ==
  LET r == FoldLeft(LAMBDA acc, d : LET v == d * m + acc.c
                                    IN [out |-> Append(acc.out, v % base), c |-> v \div base],
                    [out |-> <<>>, c |-> a], ds)
  IN IF r.c = 0 THEN r.out
     ELSE IF r.c < base THEN Append(r.out, r.c)
     ELSE r.out \o <<r.c % base, r.c \div base>>
LeadingCount(s, x) == IF \A i \in 1..Len(s) : s[i] = x THEN Len(s)
                      ELSE (CHOOSE i \in 1..Len(s) : s[i] # x /\ \A j \in 1..(i - 1) : s[j] = x) - 1
Convert(s, from, to) == Reverse(FoldLeft(LAMBDA acc, d : MulAdd(acc, from, d, to), <<>>, s))
B58Encode(b) == LET z == LeadingCount(b, 0)
                    d == Convert(SubSeq(b, z + 1, Len(b)), 256, 58)
                IN Rep(49, z) \o [i \in 1..Len(d) |-> B58[d[i] + 1]]
B58Ok(s)     == \A i \in 1..Len(s) : B58Val(s[i]) # -1
B58Decode(s) == LET v == [i \in 1..Len(s) |-> B58Val(s[i])]
                    z == LeadingCount(v, 0)
                IN Zeros(z) \o Convert(SubSeq(v, z + 1, Len(v)), 58, 256)
B58Check(b)  == B58Encode(b \o SubSeq(Hash256(b), 1, 4))
(* the checked bytes of a text, or <<>> *)
B58Body(s) ==
  IF Len(s) = 0 \/ Len(s) > 200 \/ ~B58Ok(s) THEN <<>>
  ELSE LET b == B58Decode(s) IN
       IF Len(b) < 5 THEN <<>>
       ELSE LET body == SubSeq(b, 1, Len(b) - 4)
            IN IF SubSeq(Hash256(body), 1, 4) = SubSeq(b, Len(b) - 3, Len(b)) THEN body ELSE <<>>

(* ------------------------------------------------------------ the strings *)
B58Prefix(net, kind, conf) ==
  (IF conf THEN <<Hdr(net).conf>> ELSE <<>>) \o <<IF kind = "p2pkh" THEN Hdr(net).pkh ELSE Hdr(net).sh>>
AddrText(a) ==
  IF IsB58(a.kind) THEN B58Check(B58Prefix(a.net, a.kind, a.conf) \o a.data)
  ELSE IF a.conf THEN Encoding("blech", Hdr(a.net).blech, WitVer(a.kind), a.data)
  ELSE Encoding("bech", Hdr(a.net).bech, WitVer(a.kind), a.data)

WitKind(ver, n) == CASE ver = 0 /\ n = 20 -> "p2wpkh" [] ver = 0 /\ n = 32 -> "p2wsh"
                     [] ver = 1 /\ n = 32 -> "p2tr" [] OTHER -> "none"
(* the set of addresses a text denotes: at most one *)
Denotes(s) ==
  LET body == B58Body(s)
      b58 == { [net |-> n, kind |-> k, conf |-> c,
                data |-> SubSeq(body, Len(B58Prefix(n, k, c)) + 1, Len(body))] :
               <<n, k, c>> \in { t \in Nets \X {"p2pkh", "p2sh"} \X BOOLEAN :
                 LET p == B58Prefix(t[1], t[2], t[3])
                 IN Len(body) = Len(p) + DataLen(t[2], t[3]) /\ SubSeq(body, 1, Len(p)) = p } }
      wit(n, c) == LET r == IF c THEN Decode("blech", Hdr(n).blech, s) ELSE Decode("bech", Hdr(n).bech, s)
                       k == WitKind(r.ver, Len(r.prog) - (IF c THEN 33 ELSE 0))
                   IN IF r.ok /\ k # "none" THEN {[net |-> n, kind |-> k, conf |-> c, data |-> r.prog]}
                      ELSE {}
  IN (IF body = <<>> THEN {} ELSE b58)
     \cup UNION { wit(n, c) : n \in Nets, c \in BOOLEAN }

ClassName(a) ==
  (CASE a.kind = "p2pkh" -> "P2PKH" [] a.kind = "p2sh" -> "P2SH" [] a.kind = "p2wpkh" -> "P2WPKH"
     [] a.kind = "p2wsh" -> "P2WSH" [] a.kind = "p2tr" -> "P2TR")
  \o Hdr(a.net).cls \o (IF a.conf THEN "Confidential" ELSE "") \o "Address"
Show(a) == ClassName(a) \o ":" \o B2Hex(a.data)

Plainly(a) == [a EXCEPT !.conf = FALSE, !.data = SubSeq(@, 34, Len(@))]
Conf(a, pub) == [a EXCEPT !.conf = TRUE, !.data = pub \o @]
PayScript(a) == ScriptFor(a.kind, IF a.conf THEN SubSeq(a.data, 34, Len(a.data)) ELSE a.data)

(* a compressed public key is what can blind an address *)
BlindingPubOk(p) == Len(p) = 33 /\ p[1] \in {2, 3} /\ IsPoint(p)

(***************************************************************************)
(* A class is [net, kind, enc, conf]; "any" leaves a feature open, and an  *)
(* open net means the network that is active.                              *)
(***************************************************************************)
EncOf(a) == IF IsB58(a.kind) THEN "base58" ELSE IF a.conf THEN "blech32" ELSE "bech32"
Takes(c, a, active) ==
  /\ a.net = (IF c.net = "any" THEN active ELSE c.net)
  /\ c.kind \in {"any", a.kind}
  /\ c.enc \in {"any", EncOf(a)}
  /\ c.conf = "any" \/ (c.conf = "conf") = a.conf
(* classes of one encoding are only usable while their network is active *)
Dormant(c, active) == c.net # "any" /\ c.net # active /\ c.kind = "any" /\ c.enc # "any"

(***************************************************************************)
(* Being an instance: a confidential address also is an address of the     *)
(* plain classes of its kind and network, and of no other kind or network. *)
(* An open net here is the class every network's class derives from.       *)
(***************************************************************************)
Member(c, a) ==
  /\ c.net \in {"any", a.net}
  /\ c.kind \in {"any", a.kind}
  /\ c.enc \in {"any", EncOf(a), EncOf([a EXCEPT !.conf = FALSE])}
  /\ c.conf = "conf" => a.conf

(* extended keys: 4 bytes of header, 74 bytes; secret keys: one byte, the  *)
(* secret, and a 1 where the public key is to be compressed                *)
KeyHead(net, w) == CASE w = "xpub" -> Hdr(net).xpub [] w = "xprv" -> Hdr(net).xprv
                     [] w = "wif" -> Hdr(net).wif
KeyShape(w, data) == IF w = "wif" THEN Len(data) = 32 \/ (Len(data) = 33 /\ data[33] = 1)
                     ELSE Len(data) = 74
KeyData(w, body) == SubSeq(body, IF w = "wif" THEN 2 ELSE 5, Len(body))
KeyNet(s) == LET body == B58Body(s) IN
  { << n, w >> \in Nets \X {"xpub", "xprv", "wif"} :
      LET h == KeyHead(n, w) IN
      Len(body) >= Len(h) /\ SubSeq(body, 1, Len(h)) = h /\ KeyShape(w, KeyData(w, body)) }
KeyText(net, w, data) == B58Check(KeyHead(net, w) \o data)
=============================================================================
