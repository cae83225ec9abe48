-------------------------------- MODULE Ids --------------------------------
(***************************************************************************)
(* Identifiers and keys derived from data: issuance entropy, asset and     *)
(* reissuance-token ids, per-script blinding keys; and the recognition of  *)
(* peg-out and unspendable scripts.                                        *)
(***************************************************************************)
EXTENDS Script

(* prevout hash (32 bytes) and index n (4 bytes, without flag bits) *)
Entropy(hash, n, contract) == Sha256Midstate(Hash256(hash \o n) \o contract)
AssetOf(entropy)           == Sha256Midstate(entropy \o Zeros(32))
TokenOf(entropy, conf)     == Sha256Midstate(entropy \o << IF conf THEN 2 ELSE 1 >> \o Zeros(31))

BlindingKey(master, script) == HmacSha256(master, script)

(***************************************************************************)
(* Peg-out: OP_RETURN, a push of 32 bytes, a push of at least one byte,    *)
(* then anything.  The result is <<>> or <<genesis, mainchain script>>.    *)
(***************************************************************************)
OP_RETURN == 106
PegoutOf(s) ==
  LET a == ReadOp(s, 1)
      b == ReadOp(s, a.p)
      c == ReadOp(s, b.p)
  IN IF /\ a.ok /\ a.op = OP_RETURN
        /\ b.ok /\ b.push /\ Len(b.data) = 32
        /\ c.ok /\ c.push /\ Len(c.data) > 0
     THEN << b.data, c.data >> ELSE << >>
=============================================================================
