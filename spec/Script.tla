------------------------------- MODULE Script -------------------------------
(* Scripts as byte strings: the standard output scripts and how a script is
   read operation by operation. *)
EXTENDS Bytes

AddrKinds == {"p2pkh", "p2sh", "p2wpkh", "p2wsh", "p2tr"}
PayloadLen(k) == IF k \in {"p2wsh", "p2tr"} THEN 32 ELSE 20

(* the script paying to an address of kind k with payload pl *)
ScriptFor(k, pl) ==
  CASE k = "p2pkh"  -> <<118, 169, 20>> \o pl \o <<136, 172>>
    [] k = "p2sh"   -> <<169, 20>> \o pl \o <<135>>
    [] k = "p2wpkh" -> <<0, 20>> \o pl
    [] k = "p2wsh"  -> <<0, 32>> \o pl
    [] k = "p2tr"   -> <<81, 32>> \o pl

(* the kind a script is recognised as, or "none" *)
KindOf(s) ==
  IF \E k \in AddrKinds : \E n \in {Len(s)} :
       /\ n = Len(ScriptFor(k, Zeros(PayloadLen(k))))
       /\ \E off \in {CASE k = "p2pkh" -> 3 [] OTHER -> 2} :
            ScriptFor(k, SubSeq(s, off + 1, off + PayloadLen(k))) = s
  THEN CHOOSE k \in AddrKinds :
         /\ Len(s) = Len(ScriptFor(k, Zeros(PayloadLen(k))))
         /\ ScriptFor(k, SubSeq(s, (IF k = "p2pkh" THEN 4 ELSE 3),
                                (IF k = "p2pkh" THEN 3 ELSE 2) + PayloadLen(k))) = s
  ELSE "none"

(***************************************************************************)
(* Reading the operation at position p: [ok, op, data, push, p].           *)
(* A push whose data runs past the end of the script is malformed.         *)
(***************************************************************************)
BadOp == [ok |-> FALSE, op |-> 0, push |-> FALSE, data |-> <<>>, p |-> 0]
ReadOp(s, p) ==
  IF p > Len(s) THEN BadOp
  ELSE
  LET op  == s[p]
      lw  == CASE op = 76 -> 1 [] op = 77 -> 2 [] op = 78 -> 4 [] OTHER -> 0
      has == Len(s) - p >= lw
      \* a 4-byte length of 2^24 or more certainly exceeds the script
      big == lw = 4 /\ has /\ s[p + 4] > 0
      len == IF lw = 0 THEN op
             ELSE IF lw = 1 THEN s[p + 1]
             ELSE IF lw = 2 THEN s[p + 1] + 256 * s[p + 2]
             ELSE s[p + 1] + 256 * s[p + 2] + 65536 * s[p + 3]
  IN IF op > 78 THEN [ok |-> TRUE, op |-> op, push |-> FALSE, data |-> <<>>, p |-> p + 1]
     ELSE IF ~has \/ big THEN BadOp
     ELSE IF Len(s) - p - lw < len THEN BadOp
     ELSE [ok |-> TRUE, op |-> op, push |-> TRUE,
           data |-> SubSeq(s, p + 1 + lw, p + lw + len), p |-> p + 1 + lw + len]

MaxScriptSize == 10000
IsUnspendable(s) == Len(s) = 0 \/ s[1] = 106 \/ Len(s) > MaxScriptSize
=============================================================================
