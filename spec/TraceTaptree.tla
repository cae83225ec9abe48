---------------------------- MODULE TraceTaptree ----------------------------
(* Recorded script trees, tweaked keys and their uses judged against Taptree. *)
EXTENDS Taptree, TraceKit

VARIABLE pos
If(c, name) == IF c THEN {name} ELSE {}
Raised(x) == Len(x) > 0 /\ SubSeq(x, 1, 1) = "!"

RECURSIVE TreeOf(_)
TreeOf(t) == IF t.t = "s" THEN [t |-> "s", name |-> t.name, script |-> Hex2B(t.script)]
             ELSE [t |-> "t", lv |-> t.lv, leaves |-> [i \in 1..Len(t.leaves) |-> TreeOf(t.leaves[i])]]

TapArg(e, leaf) ==
  [tx |-> T(e.tx), spent |-> [k \in 1..Len(e.spent) |-> TOut(e.spent[k])],
   idx |-> e.idx, ht |-> e.ht, leaf |-> leaf, cs |-> Ones32, annex |-> << >>, gen |-> Hex2B(e.gen)]

(* e.leaves: for each name asked for, in the order of the tree, what came back *)
LeafClauses(e, t, l, s, key, out) ==
  If(s.script # B2Hex(l.script) \/ s.script2 # s.script, "script-by-name") \cup
  If(s.path # B2Hex(l.path), "merkle-path") \cup
  If(s.lv # l.lv, "leaf-version") \cup
  If(key # << >> /\ s.cb # B2Hex(ControlBlock(key, out[1], l)), "control-block") \cup
  If(key # << >> /\ s.cbscript # s.script, "script-with-control-block") \cup
  If(key = << >> /\ ~Raised(s.cb), "control-block-without-key")

TreeEv(e) ==
  LET t == TreeOf(e.tree)
      key == Hex2B(e.key) IN
  IF ~e.subok THEN {"tree-refused"}
  ELSE IF ~TreeAccepted(t, e.consent) THEN If(~Raised(e.root), "bad-tree-accepted")
  ELSE IF Raised(e.root) THEN {"tree-refused"}
  ELSE
    LET ls == LeavesOfTree(t)
        root == RootOfTree(t)
        out == IF key = << >> THEN << >> ELSE OutputKey(key, root)
    IN If(e.root # B2Hex(root), "merkle-root") \cup
       If(e.cls # "TaprootElementsScriptTree", "tree-class") \cup
       If(e.other # "", "unknown-name-found") \cup
       If(Len(e.leaves) # Len(ls), "generator") \cup
       UNION {LeafClauses(e, t, ls[i], e.leaves[i], key, out) : i \in 1..Len(ls)} \cup
       (IF key = << >> THEN If(e.out # "" \/ e.parity # 2, "output-key-without-key")
        ELSE If(e.out # B2Hex(SubSeq(out, 2, 33)), "output-key") \cup
             If(e.parity # out[1], "output-key-parity") \cup
             If(e.spk # "5120" \o e.out, "tree-address") \cup
             If(e.check # << TRUE, FALSE, FALSE >>, "tweak-check") \cup
             If(e.signed # "T", "tweaked-key-signature"))
       \cup
       \* one leaf is tried by the verifier, as recorded and altered
       (IF e.pick = 0 THEN {} ELSE
          LET s == e.leaves[e.pick]
              l == ls[e.pick]
              o == Hex2B(e.out)
              cb == Hex2B(s.cb) IN
          If(~VerifyLeaf(o, Hex2B(s.script), cb), "leaf-does-not-verify") \cup
          If(VerifyLeaf(o, Hex2B(s.script) \o << 97 >>, cb), "another-script-verifies") \cup
          If(VerifyLeaf(o, Hex2B(s.script), << (cb[1] + 2) % 256 >> \o SubSeq(cb, 2, Len(cb))), "another-version-verifies") \cup
          \* the signature hash commits to this leaf
          LET d == B2Hex(Tap(TapArg(e, LeafHash(l.lv, l.script)))) IN
          If(e.sigleaf # d, "signature-hash-by-leaf-hash") \cup
          If(l.lv = LeafVersion /\ e.sigscript # d, "signature-hash-of-script"))

(* outputs that commit to no script *)
KeyEv(e) ==
  LET key == Hex2B(e.key)
      out == OutputKey(key, << >>) IN
  If(e.spk # "5120" \o B2Hex(SubSeq(out, 2, 33)), "key-only-address") \cup
  If(e.check # << TRUE, FALSE >>, "tweak-check") \cup
  If(e.signed # "T", "tweaked-key-signature")

Judge(e) == CASE e.k = "tree" -> TreeEv(e) [] e.k = "key" -> KeyEv(e)

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
