----------------------------- MODULE AddressMC -----------------------------
(***************************************************************************)
(* A user selects a chain, takes a plain address, may blind it, writes it  *)
(* down; another user, with whatever chain selected, reads it with some    *)
(* class and strips it again.  Checked: texts are unambiguous, read back   *)
(* exactly, and blinding and stripping are inverse.  Every case, with the  *)
(* outcome for every class, is printed and replayed.                       *)
(***************************************************************************)
EXTENDS Address, TLC, Json

CONSTANT Fills            \* payload fillings

Classes ==
       { [net |-> n, kind |-> k, enc |-> "any", conf |-> c] :
            n \in Nets \cup {"any"}, k \in AddrKinds, c \in {"plain", "conf"} }
  \cup { [net |-> n, kind |-> "any", enc |-> e[1], conf |-> e[2]] :
            n \in Nets \cup {"any"},
            e \in { <<"base58", "any">>, <<"base58", "conf">>, <<"bech32", "plain">>,
                    <<"blech32", "conf">>, <<"any", "any">>, <<"any", "conf">> } }
Actives == Nets \cup {"bitcoin"}
Pubs == { PubOf(Zeros(31) \o <<x>>) : x \in {1, 2, 5} }
Fill(f, n) == CASE f = "zero" -> Zeros(n) [] f = "ff" -> Rep(255, n)
                [] f = "ramp" -> [i \in 1..n |-> i] [] f = "lead" -> <<0, 0>> \o Rep(9, n - 2)

VARIABLES active, adr, text, stage
vars == <<active, adr, text, stage>>
Plain0 == [net |-> "elements", kind |-> "p2sh", conf |-> FALSE, data |-> Zeros(20)]

Init == active \in Actives /\ adr = Plain0 /\ text = <<>> /\ stage = "new"
Take == /\ stage = "new"
        /\ \E n \in Nets, k \in AddrKinds, f \in Fills :
             adr' = [net |-> n, kind |-> k, conf |-> FALSE, data |-> Fill(f, PayloadLen(k))]
        /\ stage' = "held" /\ UNCHANGED <<active, text>>
Blind == /\ stage = "held" /\ ~adr.conf
         /\ \E p \in Pubs : adr' = Conf(adr, p)
         /\ UNCHANGED <<active, text, stage>>
Write == /\ stage = "held" /\ text' = AddrText(adr) /\ stage' = "written" /\ UNCHANGED <<active, adr>>
Next == Take \/ Blind \/ Write

Unambiguous == stage = "written" => Denotes(text) = {adr}
StripBlind   == adr.conf => /\ Conf(Plainly(adr), SubSeq(adr.data, 1, 33)) = adr
                           /\ PayScript(Plainly(adr)) = PayScript(adr)
                           /\ KindOf(PayScript(adr)) = adr.kind
(* readers of a text: exactly the classes of its own network and kind *)
Readers     == stage = "written" => \A c \in Classes :
                 Takes(c, adr, active) => c.net = adr.net \/ active = adr.net
Emit == stage = "written" =>
  PrintT("@C " \o ToJson([k |-> "adr", active |-> active, s |-> FromChars(text),
    net |-> adr.net, kind |-> adr.kind, conf |-> adr.conf, data |-> B2Hex(adr.data),
    spk |-> B2Hex(PayScript(adr)), show |-> Show(adr),
    plain |-> IF adr.conf THEN Show(Plainly(adr)) ELSE "",
    cls |-> SetToSeq({ [net |-> c.net, kind |-> c.kind, enc |-> c.enc, conf |-> c.conf,
                        out |-> IF ~Takes(c, adr, active) THEN "no"
                                ELSE IF Dormant(c, active) THEN "may" ELSE "yes"] : c \in Classes })]))
=============================================================================
