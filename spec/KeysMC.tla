------------------------------- MODULE KeysMC -------------------------------
(***************************************************************************)
(* A wallet hands out blinding keys for scripts, from several master keys. *)
(* Different (master, script) pairs never share a key.  Every derivation   *)
(* is printed and replayed.                                                *)
(***************************************************************************)
EXTENDS Ids, FiniteSets, TLC, Json

CONSTANT MaxKeys

Masters == { Zeros(31) \o <<1>>, Rep(1, 32), <<127>> \o Zeros(31), Rep(254, 32) }
Scripts == { <<>>, <<0>>, <<0, 0>>, <<81>>, <<0, 81>>, <<81, 0>>, Rep(1, 32), Rep(1, 33),
             ScriptFor("p2pkh", Rep(7, 20)), ScriptFor("p2sh", Rep(7, 20)),
             ScriptFor("p2wpkh", Rep(7, 20)), ScriptFor("p2wsh", Rep(7, 32)),
             ScriptFor("p2tr", Rep(7, 32)), Zeros(63), Zeros(64), Zeros(65) }

VARIABLE used          \* (master, script) pairs used so far

Init == used = {}
Next == /\ Cardinality(used) < MaxKeys
        /\ \E p \in (Masters \X Scripts) \ used : used' = used \cup {p}

Distinct == Cardinality({ BlindingKey(p[1], p[2]) : p \in used }) = Cardinality(used)
Emit == Cardinality(used) = 1 => \A p \in used :
          PrintT("@C " \o ToJson([k |-> "key", master |-> B2Hex(p[1]), script |-> B2Hex(p[2]),
                                  want |-> B2Hex(BlindingKey(p[1], p[2])),
                                  pub |-> B2Hex(PubOf(BlindingKey(p[1], p[2])))]))
=============================================================================
