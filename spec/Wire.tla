-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The Elements transaction as an abstract value, its wire encoding and    *)
(* its decoding, ids and sizes.                                            *)
(*                                                                         *)
(*  tx    [ver, lock : 4 bytes, vin, vout, inwit, outwit : sequences]      *)
(*  input [hash : 32 bytes, n, seq : 4 bytes, script, pegin : BOOLEAN,     *)
(*         iss : [nonce, entropy : 32 bytes, amt, keys : confidential]]    *)
(*  out   [asset, value, nonce : confidential, script]                     *)
(*  inwit [ar, kr : bytes, sw, pw : sequences of bytes]                    *)
(*  outwit [sp, rp : bytes]                                                *)
(*                                                                         *)
(* A confidential field is the empty byte string (null) or the bytes of an *)
(* explicit value or a commitment.  The numbers ver, lock, n, seq are kept *)
(* as they are written: four bytes, little-endian.                         *)
(***************************************************************************)
EXTENDS Bytes

(* ------------------------------------------------- confidential fields *)
Kinds == {"asset", "value", "nonce"}
ExplSize(k)   == IF k = "value" THEN 9 ELSE 33
CommSize      == 33
CommPrefix(k) == CASE k = "asset" -> {10, 11} [] k = "value" -> {8, 9} [] k = "nonce" -> {2, 3}
CIsNull(c)     == Len(c) = 0
CIsExpl(k, c)  == Len(c) = ExplSize(k) /\ c[1] = 1
CIsComm(k, c)  == Len(c) = CommSize /\ c[1] \in CommPrefix(k)
CIsValid(k, c) == CIsNull(c) \/ CIsExpl(k, c) \/ CIsComm(k, c)
CLenOk(k, c)   == Len(c) \in {0, ExplSize(k), CommSize}
CSer(c)        == IF CIsNull(c) THEN <<0>> ELSE c

PConf(k, b, p) ==
  IF Left(b, p) < 1 THEN Bad
  ELSE LET h == b[p] IN
       IF h = 0 THEN Got(<<>>, p + 1)
       ELSE IF h = 1 THEN PBytes(b, p, ExplSize(k))
       ELSE IF h \in CommPrefix(k) THEN PBytes(b, p, CommSize)
       ELSE Bad

(* -------------------------------------------------------------- inputs *)
NullIss       == [nonce |-> Zeros(32), entropy |-> Zeros(32), amt |-> <<>>, keys |-> <<>>]
IssIsNull(x)  == CIsNull(x.amt) /\ CIsNull(x.keys)
IssSer(x)     == x.nonce \o x.entropy \o CSer(x.amt) \o CSer(x.keys)
IsNullPrev(i) == i.n = Ones32                      \* coinbase-style index
HasIss(i)     == ~IsNullPrev(i) /\ ~IssIsNull(i.iss)

FlaggedN(i) == IF IsNullPrev(i) THEN i.n
               ELSE SubSeq(i.n, 1, 3) \o
                    << i.n[4] + (IF HasIss(i) THEN 128 ELSE 0) + (IF i.pegin THEN 64 ELSE 0) >>
OutpointSer(i)  == i.hash \o i.n                   \* raw index, no flag bits
InSer(i)        == i.hash \o FlaggedN(i) \o VarBytes(i.script) \o i.seq
                   \o (IF HasIss(i) THEN IssSer(i.iss) ELSE <<>>)
OutSer(o)       == CSer(o.asset) \o CSer(o.value) \o CSer(o.nonce) \o VarBytes(o.script)

StackSer(st)    == SerVec([i \in 1..Len(st) |-> VarBytes(st[i])])
NullInWit       == [ar |-> <<>>, kr |-> <<>>, sw |-> <<>>, pw |-> <<>>]
NullOutWit      == [sp |-> <<>>, rp |-> <<>>]
InWitSer(w)     == VarBytes(w.ar) \o VarBytes(w.kr) \o StackSer(w.sw) \o StackSer(w.pw)
OutWitSer(w)    == VarBytes(w.sp) \o VarBytes(w.rp)

(* a missing witness stands for an empty one *)
InWit(tx, i)  == IF i <= Len(tx.inwit) THEN tx.inwit[i] ELSE NullInWit
OutWit(tx, i) == IF i <= Len(tx.outwit) THEN tx.outwit[i] ELSE NullOutWit
HasWit(tx)    == \/ \E i \in 1..Len(tx.inwit) : tx.inwit[i] # NullInWit
                 \/ \E i \in 1..Len(tx.outwit) : tx.outwit[i] # NullOutWit

VinSer(tx)    == SerVec([i \in 1..Len(tx.vin) |-> InSer(tx.vin[i])])
VoutSer(tx)   == SerVec([i \in 1..Len(tx.vout) |-> OutSer(tx.vout[i])])
WitSer(tx)    == Cat([i \in 1..Len(tx.vin) |-> InWitSer(InWit(tx, i))])
                 \o Cat([i \in 1..Len(tx.vout) |-> OutWitSer(OutWit(tx, i))])
Body(tx)      == VinSer(tx) \o VoutSer(tx) \o tx.lock

NoWitSer(tx)  == tx.ver \o <<0>> \o Body(tx)
Ser(tx)       == IF HasWit(tx) THEN tx.ver \o <<1>> \o Body(tx) \o WitSer(tx)
                 ELSE NoWitSer(tx)

TxId(tx)      == Hash256(NoWitSer(tx))
FullHash(tx)  == Hash256(Ser(tx))
VSize(tx)     == (3 * Len(NoWitSer(tx)) + Len(Ser(tx)) + 3) \div 4

(* ------------------------------------------- domain and value equality *)
InWF(i) == /\ Len(i.hash) = 32 /\ Len(i.n) = 4 /\ Len(i.seq) = 4
           /\ Len(i.iss.nonce) = 32 /\ Len(i.iss.entropy) = 32
           /\ CIsValid("value", i.iss.amt) /\ CIsValid("value", i.iss.keys)
           /\ IF IsNullPrev(i) THEN IssIsNull(i.iss) /\ ~i.pegin ELSE i.n[4] < 64
           \* the one index whose flagged form is taken for a coinbase index
           /\ FlaggedN(i) = Ones32 => IsNullPrev(i)
OutWF(o) == CIsValid("asset", o.asset) /\ CIsValid("value", o.value) /\ CIsValid("nonce", o.nonce)
WF(tx) == /\ \A i \in 1..Len(tx.vin) : InWF(tx.vin[i])
          /\ \A i \in 1..Len(tx.vout) : OutWF(tx.vout[i])
          /\ Len(tx.inwit) \in {0, Len(tx.vin)} /\ Len(tx.outwit) \in {0, Len(tx.vout)}

(* a null issuance carries no data on the wire: its nonce and entropy are not part of the value *)
NormIn(i) == IF HasIss(i) THEN i ELSE [i EXCEPT !.iss = NullIss]
(* witness lists that were never filled in stand for empty witnesses *)
PadTx(tx)  == [tx EXCEPT !.inwit = [i \in 1..Len(tx.vin) |-> InWit(tx, i)],
                         !.outwit = [i \in 1..Len(tx.vout) |-> OutWit(tx, i)]]
NormTx(tx) == [PadTx(tx) EXCEPT !.vin = [i \in 1..Len(@) |-> NormIn(@[i])]]
SameTx(a, b) == NormTx(a) = NormTx(b)

(* ------------------------------------------------------------- decoding *)
PIss(b, p) ==
  LET a == PBytes(b, p, 64) IN IF ~a.ok THEN Bad ELSE
  LET m == PConf("value", b, a.p) IN IF ~m.ok THEN Bad ELSE
  LET k == PConf("value", b, m.p) IN IF ~k.ok THEN Bad ELSE
  Got([nonce |-> SubSeq(a.v, 1, 32), entropy |-> SubSeq(a.v, 33, 64), amt |-> m.v, keys |-> k.v], k.p)

PIn(b, p) ==
  LET h == PBytes(b, p, 32) IN IF ~h.ok THEN Bad ELSE
  LET n == PBytes(b, h.p, 4) IN IF ~n.ok THEN Bad ELSE
  LET s == PVarBytes(b, n.p) IN IF ~s.ok THEN Bad ELSE
  LET q == PBytes(b, s.p, 4) IN IF ~q.ok THEN Bad ELSE
  LET cb  == n.v = Ones32
      fi  == ~cb /\ n.v[4] >= 128
      fp  == ~cb /\ (n.v[4] % 128) >= 64
      nn  == IF cb THEN n.v ELSE SubSeq(n.v, 1, 3) \o << n.v[4] % 64 >>
      iss == IF fi THEN PIss(b, q.p) ELSE Got(NullIss, q.p)
  IN IF ~iss.ok THEN Bad
     ELSE Got([hash |-> h.v, n |-> nn, script |-> s.v, seq |-> q.v,
               pegin |-> fp, iss |-> iss.v], iss.p)

POut(b, p) ==
  LET a == PConf("asset", b, p) IN IF ~a.ok THEN Bad ELSE
  LET v == PConf("value", b, a.p) IN IF ~v.ok THEN Bad ELSE
  LET n == PConf("nonce", b, v.p) IN IF ~n.ok THEN Bad ELSE
  LET s == PVarBytes(b, n.p) IN IF ~s.ok THEN Bad ELSE
  Got([asset |-> a.v, value |-> v.v, nonce |-> n.v, script |-> s.v], s.p)

PStack(b, p) == PVec(PVarBytes, b, p)

PInWit(b, p) ==
  LET a == PVarBytes(b, p) IN IF ~a.ok THEN Bad ELSE
  LET k == PVarBytes(b, a.p) IN IF ~k.ok THEN Bad ELSE
  LET s == PStack(b, k.p) IN IF ~s.ok THEN Bad ELSE
  LET w == PStack(b, s.p) IN IF ~w.ok THEN Bad ELSE
  Got([ar |-> a.v, kr |-> k.v, sw |-> s.v, pw |-> w.v], w.p)

POutWit(b, p) ==
  LET s == PVarBytes(b, p) IN IF ~s.ok THEN Bad ELSE
  LET r == PVarBytes(b, s.p) IN IF ~r.ok THEN Bad ELSE
  Got([sp |-> s.v, rp |-> r.v], r.p)

(* the whole string must be the encoding of one transaction *)
ParseAt(b) ==
  LET v == PBytes(b, 1, 4) IN IF ~v.ok THEN Bad ELSE
  LET f == PBytes(b, v.p, 1) IN IF ~f.ok THEN Bad ELSE
  IF f.v[1] > 1 THEN Bad ELSE
  LET ins == PVec(PIn, b, f.p) IN IF ~ins.ok THEN Bad ELSE
  LET outs == PVec(POut, b, ins.p) IN IF ~outs.ok THEN Bad ELSE
  LET l == PBytes(b, outs.p, 4) IN IF ~l.ok THEN Bad ELSE
  LET iw == IF f.v[1] = 1 THEN PTimes(PInWit, b, l.p, Len(ins.v)) ELSE Got(<<>>, l.p)
  IN IF ~iw.ok THEN Bad ELSE
  LET ow == IF f.v[1] = 1 THEN PTimes(POutWit, b, iw.p, Len(outs.v)) ELSE Got(<<>>, iw.p)
  IN IF ~ow.ok THEN Bad ELSE
  LET tx == [ver |-> v.v, lock |-> l.v, vin |-> ins.v, vout |-> outs.v,
             inwit |-> iw.v, outwit |-> ow.v]
  IN IF f.v[1] = 1 /\ ~HasWit(tx) THEN Bad ELSE Got(tx, ow.p)
Parse(b) == LET r == ParseAt(b) IN IF r.ok /\ r.p = Len(b) + 1 THEN r ELSE Bad

(* ------------------------------------------------ recorded transactions *)
(* A trace writes every byte string as hex text. *)
HSeq(s)   == [i \in 1..Len(s) |-> Hex2B(s[i])]
TIn(j)    == [hash |-> Hex2B(j.hash), n |-> Hex2B(j.n), script |-> Hex2B(j.script),
              seq |-> Hex2B(j.seq), pegin |-> j.pegin,
              iss |-> [nonce |-> Hex2B(j.iss.nonce), entropy |-> Hex2B(j.iss.entropy),
                       amt |-> Hex2B(j.iss.amt), keys |-> Hex2B(j.iss.keys)]]
TOut(j)   == [asset |-> Hex2B(j.asset), value |-> Hex2B(j.value), nonce |-> Hex2B(j.nonce),
              script |-> Hex2B(j.script)]
TInWit(j) == [ar |-> Hex2B(j.ar), kr |-> Hex2B(j.kr), sw |-> HSeq(j.sw), pw |-> HSeq(j.pw)]
TOutWit(j) == [sp |-> Hex2B(j.sp), rp |-> Hex2B(j.rp)]
T(j) == [ver |-> Hex2B(j.ver), lock |-> Hex2B(j.lock),
         vin |-> [i \in 1..Len(j.vin) |-> TIn(j.vin[i])],
         vout |-> [i \in 1..Len(j.vout) |-> TOut(j.vout[i])],
         inwit |-> [i \in 1..Len(j.inwit) |-> TInWit(j.inwit[i])],
         outwit |-> [i \in 1..Len(j.outwit) |-> TOutWit(j.outwit[i])]]
(* the same, as text: for comparing with an observed transaction *)
JIn(i)  == [hash |-> B2Hex(i.hash), n |-> B2Hex(i.n), script |-> B2Hex(i.script),
            seq |-> B2Hex(i.seq), pegin |-> i.pegin,
            iss |-> [nonce |-> B2Hex(i.iss.nonce), entropy |-> B2Hex(i.iss.entropy),
                     amt |-> B2Hex(i.iss.amt), keys |-> B2Hex(i.iss.keys)]]
JOut(o) == [asset |-> B2Hex(o.asset), value |-> B2Hex(o.value), nonce |-> B2Hex(o.nonce),
            script |-> B2Hex(o.script)]
JStack(s) == [k \in 1..Len(s) |-> B2Hex(s[k])]
JInWit(w) == [ar |-> B2Hex(w.ar), kr |-> B2Hex(w.kr), sw |-> JStack(w.sw), pw |-> JStack(w.pw)]
JOutWit(w) == [sp |-> B2Hex(w.sp), rp |-> B2Hex(w.rp)]
J(tx) == [ver |-> B2Hex(tx.ver), lock |-> B2Hex(tx.lock),
          vin |-> [i \in 1..Len(tx.vin) |-> JIn(tx.vin[i])],
          vout |-> [i \in 1..Len(tx.vout) |-> JOut(tx.vout[i])],
          inwit |-> [i \in 1..Len(tx.inwit) |-> JInWit(tx.inwit[i])],
          outwit |-> [i \in 1..Len(tx.outwit) |-> JOutWit(tx.outwit[i])]]
=============================================================================
