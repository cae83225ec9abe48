------------------------------- MODULE IdsMC -------------------------------
(***************************************************************************)
(* A ledger of issuances: each step issues (or reissues against) some      *)
(* outpoint with some contract, blinded or not.  The ids of different      *)
(* issuances never collide, whatever is issued; the ids of every single    *)
(* issuance are printed and replayed into the implementation.              *)
(***************************************************************************)
EXTENDS Ids, FiniteSets, TLC, Json

CONSTANT MaxIssued

Hashes    == { Zeros(32), Rep(1, 32), <<1>> \o Zeros(31), Zeros(31) \o <<1>> }
Ns        == { <<0,0,0,0>>, <<1,0,0,0>>, <<0,1,0,0>>, <<255,255,255,63>> }
Contracts == { Zeros(32), <<1>> \o Zeros(31), Zeros(31) \o <<1>> }
Issuances == [hash : Hashes, n : Ns, con : Contracts]

VARIABLE issued

Ids3(i) == LET e == Entropy(i.hash, i.n, i.con)
           IN [e |-> e, a |-> AssetOf(e), t |-> TokenOf(e, FALSE), c |-> TokenOf(e, TRUE)]
Show(i) == LET d == Ids3(i) IN
  ToJson([k |-> "ids", hash |-> B2Hex(i.hash), n |-> B2Hex(i.n), contract |-> B2Hex(i.con),
          e |-> B2Hex(d.e), a |-> B2Hex(d.a), t |-> B2Hex(d.t), c |-> B2Hex(d.c)])

Init == issued = {}
Next == /\ Cardinality(issued) < MaxIssued
        /\ \E i \in Issuances \ issued :
             issued' = issued \cup {i}
Emit == Cardinality(issued) = 1 => \A i \in issued : PrintT("@C " \o Show(i))

(* no two ids, of whatever kind and issuance, coincide *)
AllIds == UNION { LET d == Ids3(i) IN { d.e, d.a, d.t, d.c } : i \in issued }
Distinct == Cardinality(AllIds) = 4 * Cardinality(issued)
=============================================================================
