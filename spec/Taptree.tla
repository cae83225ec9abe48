------------------------------- MODULE Taptree -------------------------------
(***************************************************************************)
(* Script trees (BIP341 with the Elements tags).  A leaf is either a       *)
(* script  [t |-> "s", name, script]  or a tree                            *)
(* [t |-> "t", lv, leaves]  whose own scripts all have leaf version lv     *)
(* (256: the default).  A list of leaves is split in the middle, the first  *)
(* half being the shorter one.                                             *)
(***************************************************************************)
EXTENDS Sighash

DefaultLV == LeafVersion
VersionOf(t) == IF t.lv = 256 THEN DefaultLV ELSE t.lv

Conventional == {2 * k : k \in 96..127} \cup {102, 126, 128, 132, 150, 152, 186, 188, 190}

(* leaf versions that need no explicit consent *)
TreeAccepted(t, consent) ==
  /\ Len(t.leaves) > 0
  /\ ~(Len(t.leaves) = 1 /\ t.leaves[1].t = "t")
  /\ t.lv # 256 => /\ \E i \in 1..Len(t.leaves) : t.leaves[i].t = "s"
                  /\ t.lv % 2 = 0 /\ t.lv \in 0..254
                  /\ (consent \/ t.lv \in Conventional)

BytesLT(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Branch(a, b) == Tagged(TagBranch, IF BytesLT(b, a) THEN b \o a ELSE a \o b)

RECURSIVE RootOfTree(_), RootOfList(_, _)
RootOfTree(t) == RootOfList(t.leaves, VersionOf(t))
RootOfList(ls, lv) ==
  IF Len(ls) = 1
  THEN IF ls[1].t = "s" THEN LeafHash(lv, ls[1].script) ELSE RootOfTree(ls[1])
  ELSE LET m == Len(ls) \div 2 IN
       Branch(RootOfList(SubSeq(ls, 1, m), lv), RootOfList(SubSeq(ls, m + 1, Len(ls)), lv))

(* all scripts in order: [name, script, lv, path]; path: the sibling hashes
   from the script up to the root *)
RECURSIVE LeavesOfTree(_), LeavesOfList(_, _)
LeavesOfTree(t) == LeavesOfList(t.leaves, VersionOf(t))
Under(ls, h) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.path = @ \o h]]
LeavesOfList(ls, lv) ==
  IF Len(ls) = 1
  THEN IF ls[1].t = "s"
       THEN << [name |-> ls[1].name, script |-> ls[1].script, lv |-> lv, path |-> << >>] >>
       ELSE LeavesOfTree(ls[1])
  ELSE LET m == Len(ls) \div 2
           l == SubSeq(ls, 1, m)
           r == SubSeq(ls, m + 1, Len(ls))
       IN Under(LeavesOfList(l, lv), RootOfList(r, lv)) \o Under(LeavesOfList(r, lv), RootOfList(l, lv))

(* <<parity>> \o the output key; <<>> when there is none *)
OutputKey(internal, root) == XOnlyTweakAdd(internal, Tagged(TagTweak, internal \o root))
ControlBlock(internal, parity, leaf) == << leaf.lv + parity >> \o internal \o leaf.path

(***************************************************************************)
(* The verifier's side: does the script, shown with the control block,     *)
(* belong to the output key?                                               *)
(***************************************************************************)
RECURSIVE Climb(_, _)
Climb(h, path) == IF path = << >> THEN h
                  ELSE Climb(Branch(h, SubSeq(path, 1, 32)), SubSeq(path, 33, Len(path)))
VerifyLeaf(outkey, script, cb) ==
  /\ Len(cb) >= 33 /\ (Len(cb) - 33) % 32 = 0 /\ Len(cb) <= 33 + 32 * 128
  /\ LET parity == cb[1] % 2
         internal == SubSeq(cb, 2, 33)
         root == Climb(LeafHash(cb[1] - parity, script), SubSeq(cb, 34, Len(cb)))
     IN OutputKey(internal, root) = << parity >> \o outkey
=============================================================================
