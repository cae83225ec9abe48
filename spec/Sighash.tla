------------------------------ MODULE Sighash ------------------------------
(***************************************************************************)
(* The three signature digests of Elements: legacy, segwit v0 and taproot  *)
(* (key path and tapscript).  Each is given as the byte string that is     *)
(* hashed.  ht is the hash type as four bytes, little-endian (legacy, v0)  *)
(* or one byte, where 0 stands for the default (taproot).  Inputs are      *)
(* counted from 0, as everywhere in Elements.                              *)
(***************************************************************************)
EXTENDS Wire, Script

ALL == 1
NONE == 2
SINGLE == 3
Base(ht) == ht[1] % 32
ACP(ht)  == ht[1] >= 128

(* ---------------------------------------------------------------- legacy *)
(* the script without its OP_CODESEPARATORs; [ok, v] *)
RECURSIVE DropSepFrom(_, _)
DropSepFrom(s, p) ==
  IF p > Len(s) THEN Got(<<>>, p)
  ELSE LET o == ReadOp(s, p) IN
       IF ~o.ok THEN Bad
       ELSE LET r == DropSepFrom(s, o.p) IN
            IF ~r.ok THEN Bad
            ELSE Got((IF o.op = 171 THEN <<>> ELSE SubSeq(s, p, o.p - 1)) \o r.v, r.p)
DropSep(s) == DropSepFrom(s, 1)

IsWitnessProgram(s) == /\ Len(s) \in 4..42 /\ s[1] \in {0} \cup 81..96
                       /\ s[2] = Len(s) - 2

BlankOut == [asset |-> <<>>, value |-> <<>>, nonce |-> <<>>, script |-> <<>>]

LegInSer(i) == i.hash \o i.n \o VarBytes(i.script) \o i.seq
               \o (IF HasIss(i) THEN IssSer(i.iss) ELSE <<>>)
LegacyDefined(tx, idx, ht) == /\ idx \in 0..(Len(tx.vin) - 1)
                              /\ Base(ht) = SINGLE => idx < Len(tx.vout)
(* for a script that can be read to its end *)
LegacyPre(script, tx, idx, ht) ==
  LET code == DropSep(script).v
      me   == idx + 1
      ins  == [k \in 1..Len(tx.vin) |->
                 [tx.vin[k] EXCEPT
                    !.script = IF k = me THEN code ELSE <<>>,
                    !.seq = IF k # me /\ Base(ht) \in {NONE, SINGLE} THEN Zeros(4) ELSE @]]
      kept == IF ACP(ht) THEN << ins[me] >> ELSE ins
      outs == CASE Base(ht) = NONE   -> <<>>
                [] Base(ht) = SINGLE -> [k \in 1..me |-> IF k = me THEN tx.vout[k] ELSE BlankOut]
                [] OTHER             -> tx.vout
  IN tx.ver \o SerVec([k \in 1..Len(kept) |-> LegInSer(kept[k])])
     \o SerVec([k \in 1..Len(outs) |-> OutSer(outs[k])]) \o tx.lock \o ht
Legacy(script, tx, idx, ht) == Hash256(LegacyPre(script, tx, idx, ht))
One32 == <<1>> \o Zeros(31)

(* -------------------------------------------------------------- segwit v0 *)
IssOrZero(i) == IF IssIsNull(i.iss) THEN <<0>> ELSE IssSer(i.iss)
EachIn(F(_), tx)  == Cat([k \in 1..Len(tx.vin) |-> F(tx.vin[k])])
EachOut(F(_), tx) == Cat([k \in 1..Len(tx.vout) |-> F(tx.vout[k])])
NSeqOf(i) == i.seq

V0Pre(script, tx, idx, amt, ht) ==
  LET me == tx.vin[idx + 1]
      many == Base(ht) \notin {NONE, SINGLE}
  IN tx.ver
     \o (IF ACP(ht) THEN Zeros(32) ELSE Hash256(EachIn(OutpointSer, tx)))
     \o (IF ACP(ht) \/ ~many THEN Zeros(32) ELSE Hash256(EachIn(NSeqOf, tx)))
     \o (IF ACP(ht) THEN Zeros(32) ELSE Hash256(EachIn(IssOrZero, tx)))
     \o OutpointSer(me) \o VarBytes(script) \o CSer(amt) \o me.seq
     \o (IF IssIsNull(me.iss) THEN <<>> ELSE IssSer(me.iss))
     \o (CASE many -> Hash256(EachOut(OutSer, tx))
           [] Base(ht) = SINGLE /\ idx < Len(tx.vout) -> Hash256(OutSer(tx.vout[idx + 1]))
           [] OTHER -> Zeros(32))
     \o tx.lock \o ht
V0(script, tx, idx, amt, ht) == Hash256(V0Pre(script, tx, idx, amt, ht))

(* ---------------------------------------------------------------- taproot *)
(* a: [tx, spent, idx, ht, leaf (32 bytes, empty for a key spend), cs (4 bytes),
       annex (32 bytes or empty), gen (32 bytes)] *)
TapTypes == {0, 1, 2, 3, 129, 130, 131}
TACP(ht) == ht >= 128
TOutType(ht) == IF ht = 0 THEN ALL ELSE ht % 128
TapDefined(a) == /\ a.idx \in 0..(Len(a.tx.vin) - 1)
                 /\ Len(a.spent) = Len(a.tx.vin)
                 /\ Len(a.leaf) \in {0, 32} /\ Len(a.annex) \in {0, 32} /\ Len(a.gen) = 32
                 /\ a.ht \in TapTypes
                 /\ TOutType(a.ht) = SINGLE => a.idx < Len(a.tx.vout)

OutpointFlag(i) == << (IF IssIsNull(i.iss) THEN 0 ELSE 128) + (IF i.pegin THEN 64 ELSE 0) >>
IssProofs(w)    == VarBytes(w.ar) \o VarBytes(w.kr)
AssetAmount(o)  == CSer(o.asset) \o CSer(o.value)

TapPre(a) ==
  LET tx == a.tx
      me == a.idx + 1
      i  == tx.vin[me]
      acp == TACP(a.ht)
      out == TOutType(a.ht)
      eachSpent(F(_)) == Cat([k \in 1..Len(a.spent) |-> F(a.spent[k])])
      spentScript(o) == VarBytes(o.script)
  IN << a.ht >> \o tx.ver \o tx.lock
     \o (IF acp THEN <<>>
         ELSE Sha256(EachIn(OutpointFlag, tx)) \o Sha256(EachIn(OutpointSer, tx))
              \o Sha256(eachSpent(AssetAmount)) \o Sha256(eachSpent(spentScript))
              \o Sha256(EachIn(NSeqOf, tx)) \o Sha256(EachIn(IssOrZero, tx))
              \o Sha256(Cat([k \in 1..Len(tx.vin) |-> IssProofs(InWit(tx, k))])))
     \o (IF out = ALL
         THEN Sha256(EachOut(OutSer, tx))
              \o Sha256(Cat([k \in 1..Len(tx.vout) |-> OutWitSer(OutWit(tx, k))]))
         ELSE <<>>)
     \o << (IF a.leaf = <<>> THEN 0 ELSE 2) + (IF a.annex = <<>> THEN 0 ELSE 1) >>
     \o (IF acp
         THEN OutpointFlag(i) \o OutpointSer(i) \o AssetAmount(a.spent[me])
              \o spentScript(a.spent[me]) \o i.seq \o IssOrZero(i)
              \o (IF IssIsNull(i.iss) THEN <<>> ELSE Sha256(IssProofs(InWit(tx, me))))
         ELSE LE(a.idx, 4))
     \o a.annex
     \o (IF out = SINGLE
         THEN Sha256(OutSer(tx.vout[me])) \o Sha256(OutWitSer(OutWit(tx, me)))
         ELSE <<>>)
     \o (IF a.leaf = <<>> THEN <<>> ELSE a.leaf \o <<0>> \o a.cs)

Tagged(tag, msg) == LET t == Sha256(tag) IN Sha256(t \o t \o msg)
(* "TapSighash/elements", "TapLeaf/elements", "TapBranch/elements", "TapTweak/elements" *)
TagSighash == Chars("TapSighash/elements")
TagLeaf    == Chars("TapLeaf/elements")
TagBranch  == Chars("TapBranch/elements")
TagTweak   == Chars("TapTweak/elements")
LeafVersion == 196
LeafHash(lv, script) == Tagged(TagLeaf, <<lv>> \o VarBytes(script))

Tap(a) == Tagged(TagSighash, a.gen \o a.gen \o TapPre(a))
=============================================================================
