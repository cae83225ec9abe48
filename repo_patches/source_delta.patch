From 0e3b788b7bf0df2a09ffd204d094ed0ebd48af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 01/26] fix: reject unknown flag byte when deserializing a
 transaction

---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d5b5d6f..550312b 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1101,6 +1101,8 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                 raise ValueError('Superfluous witness record')
 
             return cls(vin, vout, nLockTime, nVersion, wit)
+        elif flagbyte != 0:
+            raise SerializationError('Unknown transaction flag byte')
         else:
             vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
             vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
-- 
2.43.0


From ee508e77df1122ea32073b69ce250fb59b358c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 02/26] fix: segwit v0 sighash must accept lock times with the
 top bit set

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b94d905..4202173 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -183,7 +183,7 @@ def RawElementsSignatureHash(
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
     f.write(hashOutputs)
-    f.write(struct.pack("<i", txTo.nLockTime))
+    f.write(struct.pack("<I", txTo.nLockTime))
     f.write(struct.pack("<i", hashtype))
 
     hash = Hash(f.getvalue())
-- 
2.43.0


From fc24826c5742c9e6861bf7f06ec759de1e021ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 03/26] fix: CElementsTxOutWitness must copy proofs given as
 bytearray

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 550312b..4ac0295 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -551,8 +551,8 @@ class CElementsTxOutWitness(CTxOutWitness, CoreElementsClass):
                  rangeproof: Union[bytes, bytearray] = b''):
         ensure_isinstance(surjectionproof, (bytes, bytearray), 'surjectionproof')
         ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
-        object.__setattr__(self, 'surjectionproof', surjectionproof)
-        object.__setattr__(self, 'rangeproof', rangeproof)
+        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
+        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
 
     @no_bool_use_as_property
     def is_null(self) -> bool:
-- 
2.43.0


From a183a6edd1f3cb4cf116e92586548f0f5e22ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 04/26] fix: taproot SIGHASH_SINGLE without matching output
 must raise ValueError

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 4202173..ad8d8df 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -360,7 +360,7 @@ def ElementsSignatureHashSchnorr(
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-        if outIdx > len(txTo.vout):
+        if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
         f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
-- 
2.43.0


From 44f1bf78fcab653ea0fb4f0f29045fdb02ed906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 05/26] fix: annex hash is committed to taproot sighash without
 length prefix

---
 elementstx/core/script.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index ad8d8df..b691e0d 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -356,7 +356,8 @@ def ElementsSignatureHashSchnorr(
         f.write(struct.pack('<I', inIdx))
 
     if annex_hash is not None:
-        BytesSerializer.stream_serialize(annex_hash, f)
+        # fixed-size hash, written without length prefix
+        f.write(annex_hash)
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-- 
2.43.0


From 627cdb60f20eff1a2c4af10e883ea4317464fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 06/26] fix: taproot ANYONECANPAY sighash commits to lengths of
 script and issuance proofs

---
 elementstx/core/script.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b691e0d..55cc84b 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -338,7 +338,8 @@ def ElementsSignatureHashSchnorr(
         f.write(txTo.vin[inIdx].prevout.serialize())
         f.write(spent_outputs[inIdx].nAsset.serialize())
         f.write(spent_outputs[inIdx].nValue.serialize())
-        f.write(spent_outputs[inIdx].scriptPubKey)
+        BytesSerializer.stream_serialize(
+            spent_outputs[inIdx].scriptPubKey, f)
         f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
         if txTo.vin[inIdx].assetIssuance.is_null():
             f.write(b'\x00')
@@ -348,8 +349,8 @@ def ElementsSignatureHashSchnorr(
             inwit = txTo.wit.vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
-                    inwit.issuanceAmountRangeproof
-                    + inwit.inflationKeysRangeproof
+                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
+                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                 ).digest()
             )
     else:
-- 
2.43.0


From ba440e2016eaf02db4121d42139b5cc5c9bf094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 07/26] fix: taproot sighash of a transaction without filled
 witness lists

---
 elementstx/core/script.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 55cc84b..acbdd3a 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -272,6 +272,17 @@ def ElementsSignatureHashSchnorr(
 
         return bytes([opf >> 24])
 
+    # The witness lists may be not filled in yet, missing witnesses are empty
+    def get_inwit(idx: int) -> 'elementstx.core.CElementsTxInWitness':
+        if idx < len(txTo.wit.vtxinwit):
+            return txTo.wit.vtxinwit[idx]
+        return elementstx.core.CElementsTxInWitness()
+
+    def get_outwit(idx: int) -> 'elementstx.core.CElementsTxOutWitness':
+        if idx < len(txTo.wit.vtxoutwit):
+            return txTo.wit.vtxoutwit[idx]
+        return elementstx.core.CElementsTxOutWitness()
+
     if input_type != SIGHASH_ANYONECANPAY:
         outpoints_flag_hashobj = hashlib.sha256()
         assets_amounts_hashobj = hashlib.sha256()
@@ -295,7 +306,7 @@ def ElementsSignatureHashSchnorr(
             else:
                 issuances_hashobj.update(txin.assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inp_i]
+            inwit = get_inwit(inp_i)
             issuance_rangeproof_hashobj.update(
                 BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
             issuance_rangeproof_hashobj.update(
@@ -320,8 +331,7 @@ def ElementsSignatureHashSchnorr(
 
         for outp_i, txout in enumerate(txTo.vout):
             outputs_hashobj.update(txout.serialize())
-            output_witnesses_hashobj.update(
-                txTo.wit.vtxoutwit[outp_i].serialize())
+            output_witnesses_hashobj.update(get_outwit(outp_i).serialize())
 
         f.write(outputs_hashobj.digest())
         f.write(output_witnesses_hashobj.digest())
@@ -346,7 +356,7 @@ def ElementsSignatureHashSchnorr(
         else:
             f.write(txTo.vin[inIdx].assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inIdx]
+            inwit = get_inwit(inIdx)
             f.write(
                 hashlib.sha256(
                     BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
@@ -365,7 +375,7 @@ def ElementsSignatureHashSchnorr(
         if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
-        f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
+        f.write(hashlib.sha256(get_outwit(outIdx).serialize()).digest())
 
     if sigversion == SIGVERSION_TAPSCRIPT:
         if tapleaf_hash is None:
-- 
2.43.0


From 20ed3cb5b40f169f47728a5e7a9f09fb88608474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 08/26] fix: redeem script of confidential address is that of
 its unconfidential address

---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index d126076..9850a59 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -158,7 +158,7 @@ class CCoinConfidentialAddress(CCoinAddress):
         return self.to_unconfidential().to_scriptPubKey()
 
     def to_redeemScript(self) -> CScript:
-        return self.to_unconfidential().to_scriptPubKey()
+        return self.to_unconfidential().to_redeemScript()
 
     def from_scriptPubKey(self) -> None:  # type: ignore
         raise CCoinAddressError(
-- 
2.43.0


From 94cdc3edbbc1297b4a1ccd3f41f32b6ab4522b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 09/26] fix: serialize empty witnesses for witness list that
 was not filled in

---
 elementstx/core/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 4ac0295..8bcdfa2 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1123,7 +1123,13 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
             VectorSerializer.stream_serialize(self.vout, f)
             # Note: nLockTime goes before witness in Elements transactions
             f.write(struct.pack(b"<I", self.nLockTime))
-            self.wit.stream_serialize(f)
+            # A list that was not filled in stands for empty witnesses
+            for txinwit in (self.wit.vtxinwit
+                            or [CElementsTxInWitness()]*len(self.vin)):
+                txinwit.stream_serialize(f)
+            for txoutwit in (self.wit.vtxoutwit
+                             or [CElementsTxOutWitness()]*len(self.vout)):
+                txoutwit.stream_serialize(f)
         else:
             if not for_sighash:
                 f.write(b'\x00')  # Flag is needed in Elements
-- 
2.43.0


From 9e57245b1709f68e161c806f2f5171a846d8c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 10/26] fix: virtual size of transaction must account for the
 flag byte

---
 elementstx/core/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 8bcdfa2..2e72673 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1138,6 +1138,15 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
             VectorSerializer.stream_serialize(self.vout, f)
             f.write(struct.pack(b"<I", self.nLockTime))
 
+    def get_virtual_size(self) -> int:
+        """Calculate virtual size for the transaction.
+
+        The generic calculation does not account for the flag byte
+        that is always present in Elements transactions."""
+        base_size = len(self.serialize(include_witness=False))
+        total_size = len(self.serialize())
+        return (base_size * 3 + total_size + 3) // 4
+
     @property
     def num_issuances(self) -> int:
         numIssuances = 0
-- 
2.43.0


From 08e7354b713356c444cca002f15b8083d1fd9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:55 +0000
Subject: [PATCH 11/26] fix: CElementsOutPoint must copy the hash given as
 bytearray

---
 elementstx/core/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 2e72673..d844667 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -405,6 +405,12 @@ class CElementsOutPoint(COutPoint, CoreElementsClass):
     to_immutable: ClassVar[Callable[['CElementsOutPoint'],
                                     'CElementsOutPoint']]
 
+    def __init__(self, hash: Union[bytes, bytearray] = b'\x00'*32,
+                 n: int = 0xffffffff):
+        super(CElementsOutPoint, self).__init__(hash, n)
+        # do not keep the reference to mutable buffer of the caller
+        object.__setattr__(self, 'hash', bytes(self.hash))
+
 
 class CElementsMutableOutPoint(CElementsOutPoint, CMutableOutPoint,
                                mutable_of=CElementsOutPoint):
-- 
2.43.0


From 0612d123cbfdc920fce21a7c4a89cd53167ff99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 12/26] fix: issuance blinding must fill in witnesses of all
 inputs

---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d844667..e5fd42e 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1577,7 +1577,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     # though it is possible. No privacy gained here, incompatible with secp api
                     return blinding_result()
 
-                while len(tx.wit.vtxinwit) <= nIn:
+                while len(tx.wit.vtxinwit) < len(tx.vin):
                     tx.wit.vtxinwit.append(CElementsMutableTxInWitness())
 
                 txinwit = tx.wit.vtxinwit[nIn]
-- 
2.43.0


From 12cab63ba9601f4cdf111b1c7d50dfc2dc05ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 13/26] fix: refuse issuance blinding key for input without
 issuance

---
 elementstx/core/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index e5fd42e..b9f84a1 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1470,7 +1470,14 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
 
         # Count number of issuance pseudo-inputs to blind
         issuance = tx.vin[nIn].assetIssuance
-        if not issuance.is_null():
+        if issuance.is_null():
+            for keys, name in ((blind_issuance_asset_keys, 'asset'),
+                               (blind_issuance_token_keys, 'token')):
+                if len(keys) > nIn and keys[nIn] is not None:
+                    return BlindingFailure(
+                        f'blind_issuance_{name}_keys is specified for input '
+                        f'{nIn}, but this input has no issuance')
+        else:
             # Marked for blinding
             if len(blind_issuance_asset_keys) > nIn and blind_issuance_asset_keys[nIn] is not None:
                 if not issuance.nAmount.is_explicit():
-- 
2.43.0


From d1e0a412c1471fdeaa162d440a004f541224264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 14/26] fix: refuse to blind transaction with inflation keys in
 reissuance

---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index b9f84a1..4dfb338 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1382,6 +1382,9 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
             else:
+                if not issuance.nInflationKeys.is_null():
+                    return BlindingFailure(
+                        f'reissuance at input {i} cannot have nInflationKeys')
                 asset = calculate_asset(issuance.assetEntropy)
 
             if not issuance.nAmount.is_null():
-- 
2.43.0


From 6b0dd548b2859b3cf309a4a1555b604168bc0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 15/26] fix: check type of issuance blinding keys that evaluate
 to false

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 4dfb338..f3c2709 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1233,12 +1233,12 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
     if not (len(tx.vin) >= len(blind_issuance_asset_keys)):
         raise ValueError('unexpected extra blind_issuance_asset_keys')
     for i, k in enumerate(blind_issuance_asset_keys):
-        if k:
+        if k is not None:
             ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_asset_keys')
     if not len(tx.vin) >= len(blind_issuance_token_keys):
         raise ValueError('unexpected extra blind_issuance_token_keys')
     for i, k in enumerate(blind_issuance_token_keys):
-        if k:
+        if k is not None:
             ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_token_keys')
 
     if len(tx.vin) != len(input_descriptors):
-- 
2.43.0


From efbd12f08e016370f8f9bb939eaad21b1b87a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 16/26] fix: refuse out of range blinding factors before
 changing transaction

---
 elementstx/core/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index f3c2709..6493b67 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1204,6 +1204,11 @@ class CElementsMutableTransaction(CElementsTransaction,
             _rand_func=_rand_func)
 
 
+# Blinding factors are numbers below the order of secp256k1 group
+SECP256K1_ORDER = bytes.fromhex(
+    'fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141')
+
+
 def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                       input_descriptors: Sequence[BlindingInputDescriptor] = (),
                       output_pubkeys: Sequence[CPubKey] = (),
@@ -1252,6 +1257,10 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
         ensure_isinstance(idesc.asset, CAsset,
                           f'asset of input descriptor {i}')
         ensure_isinstance(idesc.amount, int, f'amount of input descriptor {i}')
+        for bf in (idesc.blinding_factor, idesc.asset_blinding_factor):
+            if bf.data >= SECP256K1_ORDER:
+                raise ValueError(
+                    f'blinding factor of input descriptor {i} is out of range')
 
     output_blinding_factors: List[Optional[Uint256]] = \
         [None for _ in range(len(tx.vout))]
-- 
2.43.0


From a1fbff2acd379ee424401be3f31c04907ec00cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 17/26] fix: refuse to blind spendable zero-amount output
 before changing transaction

---
 elementstx/core/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 6493b67..84fc378 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1540,6 +1540,11 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 return BlindingFailure(
                     'valid blinding pubkey specified for output %d, '
                     'but this output is a fee output' % nOut)
+            if tx.vout[nOut].nValue.to_amount() == 0 \
+                    and not tx.vout[nOut].scriptPubKey.is_unspendable():
+                return BlindingFailure(
+                    'valid blinding pubkey specified for output %d, '
+                    'but amount is zero and the output is spendable' % nOut)
 
             nToBlind += 1
 
-- 
2.43.0


From 94a712265ab9d3d9363f6cf9bcb0db57ab87d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 18/26] fix: accept auxiliary generators given as bytearray

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 84fc378..7c3e7e0 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1348,7 +1348,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 # Parse generator here
                 asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                 result = secp256k1.lib.secp256k1_generator_parse(
-                    secp256k1.ctx.blind, asset_generator, auxiliary_generators[i])
+                    secp256k1.ctx.blind, asset_generator, bytes(auxiliary_generators[i]))
                 if result != 1:
                     assert result == 0
                     return BlindingFailure(
@@ -1432,7 +1432,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
             ret = secp256k1.lib.secp256k1_generator_parse(
                 secp256k1.ctx.blind,
-                gen_buf, auxiliary_generators[len(tx.vin)+n])
+                gen_buf, bytes(auxiliary_generators[len(tx.vin)+n]))
             if ret != 1:
                 assert ret == 0
                 return BlindingFailure(
-- 
2.43.0


From 4225a7f7599263c47c3bd3cb74a6080a4e764053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 19/26] fix: accept range proof given as bytearray when
 unblinding

---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 7c3e7e0..a829c53 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2110,7 +2110,7 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
         msg, ctypes.byref(msg_size),
         nonce,
         ctypes.byref(min_value), ctypes.byref(max_value),
-        commit, rangeproof, len(rangeproof),
+        commit, bytes(rangeproof), len(rangeproof),
         committedScript or None, len(committedScript),
         observed_gen)
 
-- 
2.43.0


From 430e3008f059e1ba69fa71297d624fe9efdc6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:57 +0000
Subject: [PATCH 20/26] fix: OP_DETERMINISTICRANDOM is opcode 0xc0

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index acbdd3a..f18dd54 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -43,7 +43,7 @@ import elementstx.core
 # to have CBitcoinScriptOp and CElementsScriptOp, but
 # this is too heavy for this small issue. These opcodes are useable as-is,
 # the only proble is that they will be shown as UNKNOWN for repr(script).
-OP_DETERMINISTICRANDOM = CScriptOp(0xc1)
+OP_DETERMINISTICRANDOM = CScriptOp(0xc0)
 OP_CHECKSIGFROMSTACK = CScriptOp(0xc1)
 OP_CHECKSIGFROMSTACKVERIFY = CScriptOp(0xc2)
 
-- 
2.43.0


From e0ad8fda879d8a869c2fb48482aabba98b4c8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:05 +0000
Subject: [PATCH 21/26] fix: show which parts of an issuance are printed

---
 elementstx/core/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index a829c53..f1f5f9e 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -796,13 +796,14 @@ class CAssetIssuance(ImmutableSerializable, ReprOrStrMixin):
     def _repr_or_str(self, strfn: Callable[[Any], str]) -> str:
         r = []
         if self.assetBlindingNonce.to_int():
-            r.append(bytes_repr(self.assetBlindingNonce.data))
+            r.append('assetBlindingNonce='
+                     + bytes_repr(self.assetBlindingNonce.data))
         if self.assetEntropy.to_int():
-            r.append(bytes_repr(self.assetEntropy.data))
+            r.append('assetEntropy=' + bytes_repr(self.assetEntropy.data))
         if not self.nAmount.is_null():
-            r.append(strfn(self.nAmount))
+            r.append('nAmount=' + strfn(self.nAmount))
         if not self.nInflationKeys.is_null():
-            r.append(strfn(self.nInflationKeys))
+            r.append('nInflationKeys=' + strfn(self.nInflationKeys))
         return 'CAssetIssuance({})'.format(', '.join(r))
 
 
-- 
2.43.0


From 34a9bdc014a12c30ca896f9a01eba1e749179a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:07 +0000
Subject: [PATCH 22/26] fix: let is_valid() of an output answer about its
 confidential fields

---
 elementstx/core/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index f1f5f9e..9ea1e97 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -997,6 +997,16 @@ class CElementsTxOut(ReprOrStrMixin, CTxOut, CoreElementsClass):
         return (self.nAsset.is_null() and self.nValue.is_null()
                 and self.nNonce.is_null() and not len(self.scriptPubKey))
 
+    @no_bool_use_as_property
+    def is_valid(self) -> bool:
+        if self.nAsset.is_null() or not self.nAsset.is_valid():
+            return False
+        if self.nValue.is_null() or not self.nValue.is_valid():
+            return False
+        if self.nValue.is_explicit() and not MoneyRange(self.nValue.to_amount()):
+            return False
+        return self.nNonce.is_valid() and self.scriptPubKey.is_valid()
+
     @no_bool_use_as_property
     def is_fee(self) -> bool:
         return (not len(self.scriptPubKey)
-- 
2.43.0


From cdfeae518b727f606a0fc6a414030b34ae6265c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:12 +0000
Subject: [PATCH 23/26] fix: give CAsset.to_commitment() its name back

A search and replace had turned 'to_commitment' into
'to_comm_secp256k1itment'; examples/asset-atomic-swap.py calls
to_commitment().
---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 9ea1e97..ad2f04c 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -308,7 +308,7 @@ class CAsset(Uint256):
     def __repr__(self) -> str:
         return "{}('{}')".format(self.__class__.__name__, self.to_hex())
 
-    def to_comm_secp256k1itment(self) -> bytes:
+    def to_commitment(self) -> bytes:
         secp256k1 = get_secp256k1()
         gen = ctypes.create_string_buffer(64)
         res = secp256k1.lib.secp256k1_generator_generate(
-- 
2.43.0


From 0177ba8be2a8bd0f771f7546d99e4987bc902f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:28 +0000
Subject: [PATCH 24/26] fix: notice when a surjection proof cannot be
 serialized

The result of secp256k1_surjectionproof_serialize() was ignored, so that
blinding was reported as successful with a proof that was not written.
---
 elementstx/core/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index ad2f04c..51e2504 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2024,8 +2024,11 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
             secp256k1.ctx.blind, proof)
         output_len = ctypes.c_size_t(expected_output_len)
         serialized_proof = ctypes.create_string_buffer(output_len.value)
-        secp256k1.lib.secp256k1_surjectionproof_serialize(
+        ret = secp256k1.lib.secp256k1_surjectionproof_serialize(
             secp256k1.ctx.blind, serialized_proof, ctypes.byref(output_len), proof)
+        if 1 != ret:
+            assert ret == 0
+            raise RuntimeError('secp256k1_surjectionproof_serialize returned failure')
         assert output_len.value == expected_output_len
     finally:
         secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
-- 
2.43.0


From b5560c5cd0020b1acbe25b4e2e8807d4aec33cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:28 +0000
Subject: [PATCH 25/26] fix: do not unblind with a generator that was never
 made

With an asset that is neither a commitment nor explicit, the range proof
was rewound against an uninitialized generator.
---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 51e2504..73364bd 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2101,6 +2101,9 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
             assert res == 0
             return UnblindingFailure(
                 'unable to create a generator out of asset explicit data')
+    else:
+        return UnblindingFailure(
+            'asset is neither a commitment nor explicit')
 
     commit = ctypes.create_string_buffer(64)
     # Valid value commitment ?
-- 
2.43.0


From 5b8b08f88c8098d008de24d0bb8d7667f69c35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:03 +0000
Subject: [PATCH 26/26] fix: secret keys of Liquid have the prefix of that
 network

Strings of secret keys of the 'elements/liquidv1' chain were written with
(and only read with) the prefix byte 239 of the regtest network. Elements
Core uses 128 for liquidv1. Keys of one network were thus accepted by the
other one, and keys exported by a Liquid node were refused.
---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index 9850a59..673007b 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -480,7 +480,7 @@ P2TRElementsLiquidV1Address.register(P2TRElementsLiquidV1ConfidentialAddress)
 
 
 class CElementsLiquidV1Key(CCoinKey, WalletElementsLiquidV1Class):
-    base58_prefix = bytes([239])
+    base58_prefix = bytes([128])
 
 
 class CElementsLiquidV1ExtPubKey(CCoinExtPubKey, WalletElementsLiquidV1Class):
-- 
2.43.0

