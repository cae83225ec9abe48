------------------------------ MODULE TaptreeMC ------------------------------
(***************************************************************************)
(* All trees that can be built in Depth steps, each step making a tree of  *)
(* up to Width scripts and earlier trees.  TLC checks that every leaf of   *)
(* an accepted tree verifies against the output key with its own control   *)
(* block, and neither with another script, version nor path; the trees are *)
(* replayed.                                                               *)
(***************************************************************************)
EXTENDS Taptree, TLC, Json

CONSTANTS Depth, Width, Versions, NScripts

VARIABLE built         \* trees made so far; the last one may be refused

Scripts == SubSeq(<< << 81 >>, << >>, << 172, 81 >> >>, 1, NScripts)
Internal(n) == SubSeq(PubOf(Zeros(31) \o << n >>), 2, 33)

Pool == {[t |-> "s", name |-> "", script |-> Scripts[i]] : i \in 1..Len(Scripts)} \cup
        {built[i] : i \in 1..Len(built)}
Newest == built[Len(built)]
Ok(t) == TreeAccepted(t, FALSE)

Init == built = << >>
Next == /\ Len(built) < Depth
        /\ built # << >> => Ok(Newest)
        /\ \E n \in 0..Width : \E ls \in [1..n -> Pool], lv \in Versions :
             \* later trees make use of earlier ones
             /\ built # << >> => \E i \in 1..n : ls[i] = Newest
             /\ built' = Append(built, [t |-> "t", lv |-> lv, leaves |-> ls])

(* give every script a name of its own: its place in the order of leaves *)
Key(t) == Internal(1 + Len(LeavesOfTree(t)))
Out(t) == OutputKey(Key(t), RootOfTree(t))
KeyPart(s) == SubSeq(s, 2, Len(s))
Sound ==
  built # << >> /\ Ok(Newest) =>
    LET ls == LeavesOfTree(Newest)
        root == RootOfTree(Newest)
        out == Out(Newest)
        Leads(script, lv, path) == Climb(LeafHash(lv, script), path) = root
    IN
    /\ \A i \in 1..Len(ls) :
         LET l == ls[i] IN
         /\ Leads(l.script, l.lv, l.path)
         /\ ~Leads(l.script \o << 81 >>, l.lv, l.path)
         /\ ~Leads(l.script, (l.lv + 2) % 256, l.path)
         /\ ~Leads(l.script, l.lv, l.path \o Zeros(32))
         /\ l.path # << >> => ~Leads(l.script, l.lv, SubSeq(l.path, 33, Len(l.path)))
    \* the verifier as a whole, on the last leaf
    /\ LET l == ls[Len(ls)]
           cb == ControlBlock(Key(Newest), out[1], l)
       IN /\ VerifyLeaf(KeyPart(out), l.script, cb)
          /\ ~VerifyLeaf(KeyPart(out), l.script, << cb[1] + 1 - 2 * (cb[1] % 2) >> \o KeyPart(cb))
\* a tree of n scripts is no deeper than it must be when it is one flat list
Balanced == built # << >> /\ Ok(Newest) /\ (\A i \in 1..Len(Newest.leaves) : Newest.leaves[i].t = "s") =>
              LET ls == LeavesOfTree(Newest) IN
              \A i, j \in 1..Len(ls) : Len(ls[i].path) - Len(ls[j].path) \in {-32, 0, 32}

RECURSIVE Text(_)
Text(t) == IF t.t = "s" THEN [t |-> "s", script |-> B2Hex(t.script)]
           ELSE [t |-> "t", lv |-> t.lv, leaves |-> [i \in 1..Len(t.leaves) |-> Text(t.leaves[i])]]
Leaf(l) == [script |-> B2Hex(l.script), lv |-> l.lv, path |-> B2Hex(l.path)]
Emit == built # << >> =>
  PrintT("@C " \o ToJson(
    IF Ok(Newest)
    THEN LET out == Out(Newest)
             ls  == LeavesOfTree(Newest) IN
         [ok |-> TRUE, tree |-> Text(Newest), root |-> B2Hex(RootOfTree(Newest)), key |-> B2Hex(Key(Newest)),
          parity |-> out[1], out |-> B2Hex(KeyPart(out)),
          leaves |-> [i \in 1..Len(ls) |-> Leaf(ls[i])]]
    ELSE [ok |-> FALSE, tree |-> Text(Newest)]))
=============================================================================
