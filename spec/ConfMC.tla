------------------------------- MODULE ConfMC -------------------------------
(***************************************************************************)
(* A confidential field is made from raw bytes, from an amount or from an  *)
(* asset id, written to the wire and read by somebody else.  TLC checks    *)
(* that the classes exclude each other and travel unchanged, and that what *)
(* is outside of them is never read back; every field is replayed.         *)
(***************************************************************************)
EXTENDS Wire, FiniteSets, TLC, Json

CONSTANTS Firsts, Lens, Fills
VARIABLES kind, raw, wire, back, how
vars == << kind, raw, wire, back, how >>

Few      == {0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 255}
AllBytes == 0..255
AllLens  == 0..70
Fill(f, n) == [i \in 1..n |-> (f * i) % 256]

Init == kind \in Kinds /\ raw = <<>> /\ wire = <<>> /\ back = Bad /\ how = "new"
FromBytes == /\ how = "new" /\ how' = "bytes"
             /\ \E p \in Firsts, n \in Lens, f \in Fills :
                  raw' = IF n = 0 THEN <<>> ELSE <<p>> \o Fill(f, n - 1)
             /\ UNCHANGED << kind, wire, back >>
\* amounts are the 8 bytes after the prefix, asset ids the 32
FromPlain == /\ how = "new" /\ kind # "nonce" /\ how' = "plain"
             /\ \E p \in Firsts, f \in Fills : raw' = <<1>> \o <<p>> \o Fill(f, ExplSize(kind) - 2)
             /\ UNCHANGED << kind, wire, back >>
Send == /\ how \in {"bytes", "plain"} /\ CLenOk(kind, raw) /\ how' = "sent"
        /\ wire' = CSer(raw) /\ back' = PConf(kind, CSer(raw), 1) /\ UNCHANGED << kind, raw >>
Next == FromBytes \/ FromPlain \/ Send

Classes == {c \in {"null", "expl", "comm"} :
             CASE c = "null" -> CIsNull(raw) [] c = "expl" -> CIsExpl(kind, raw)
               [] c = "comm" -> CIsComm(kind, raw)}
OneClass  == Cardinality(Classes) <= 1 /\ (CIsValid(kind, raw) <=> Classes # {})
PlainIsExplicit == how = "plain" => Classes = {"expl"}
Travels   == how = "sent" /\ CIsValid(kind, raw) => back.ok /\ back.v = raw /\ back.p = Len(wire) + 1
\* what is none of the three never comes back as what it was
OddIsLost == how = "sent" /\ ~CIsValid(kind, raw) => ~(back.ok /\ back.p = Len(wire) + 1)

Emit == how \in {"bytes", "plain"} => PrintT("@C " \o ToJson(
  [kind |-> kind, raw |-> B2Hex(raw), how |-> how, made |-> CLenOk(kind, raw),
   null |-> CIsNull(raw), expl |-> CIsExpl(kind, raw), comm |-> CIsComm(kind, raw),
   valid |-> CIsValid(kind, raw), ser |-> B2Hex(CSer(raw)),
   read |-> CLenOk(kind, raw) /\ (LET g == PConf(kind, CSer(raw), 1) IN g.ok /\ g.p = Len(CSer(raw)) + 1)]))
=============================================================================
