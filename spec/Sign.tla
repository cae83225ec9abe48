-------------------------------- MODULE Sign --------------------------------
(***************************************************************************)
(* Signing and spending.  A coin is to be spent by one or more signatures, *)
(* each over one piece of script code:                                     *)
(*   [kind |-> "leg" | "v0" | "key" | "leaf", codes, out]                  *)
(* (out: the output that created it, as the verifier is told of it).  A    *)
(* signature remembers the digest it was made for.  An input is accepted   *)
(* when each of its signatures was made for what is the digest now.        *)
(*   s = [tx, coins, gen, sigs], sigs[i]: <<>> or one per code of coin i   *)
(***************************************************************************)
EXTENDS Taptree

TapSide(kind) == kind \in {"key", "leaf"}
HT32(ht) == << ht, 0, 0, 0 >>
TapAsk(s, i, code, ht) ==
  [tx |-> s.tx, spent |-> [k \in 1..Len(s.coins) |-> s.coins[k].out], idx |-> i - 1, ht |-> ht,
   leaf |-> IF s.coins[i].kind = "leaf" THEN LeafHash(LeafVersion, code) ELSE <<>>,
   cs |-> Ones32, annex |-> <<>>, gen |-> s.gen]
HasDigest(s, i, code, ht) ==
  CASE s.coins[i].kind = "leg" -> LegacyDefined(s.tx, i - 1, HT32(ht))
    [] s.coins[i].kind = "v0"  -> TRUE
    [] OTHER -> TapDefined(TapAsk(s, i, code, ht))
DigestOf(s, i, code, ht) ==
  CASE s.coins[i].kind = "leg" -> Legacy(code, s.tx, i - 1, HT32(ht))
    [] s.coins[i].kind = "v0"  -> V0(code, s.tx, i - 1, s.coins[i].out.value, HT32(ht))
    [] OTHER -> Tap(TapAsk(s, i, code, ht))

(* the owner signs, with one hash type per signature *)
MaySign(s, i, hts) == \A k \in 1..Len(hts) : HasDigest(s, i, s.coins[i].codes[k], hts[k])
SigsFor(s, i, hts) == [k \in 1..Len(hts) |->
                         [ht |-> hts[k], digest |-> DigestOf(s, i, s.coins[i].codes[k], hts[k])]]
Signed(s, i, hts)  == [s EXCEPT !.sigs[i] = SigsFor(s, i, hts)]

Accepts(s, i) ==
  /\ s.sigs[i] # <<>>
  /\ \A k \in 1..Len(s.sigs[i]) :
       LET g == s.sigs[i][k] code == s.coins[i].codes[k] IN
       HasDigest(s, i, code, g.ht) /\ DigestOf(s, i, code, g.ht) = g.digest
=============================================================================
