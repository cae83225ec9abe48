----------------------------- MODULE UnblindMC -----------------------------
(***************************************************************************)
(* A wallet collects what it needs to unblind an output, piece by piece,   *)
(* from the outputs of one transaction: outputs 1 and 4 pay to the same    *)
(* key and script, output 2 to another one, 3 is a blinded issuance (no    *)
(* nonce, no script, explicit asset).  0 stands for a missing proof, for   *)
(* an amount that is not hidden or for a nonce that is no public key.      *)
(* TLC checks that exactly the pieces that belong together open, and open  *)
(* to what was hidden there; every collection is replayed.                 *)
(***************************************************************************)
EXTENDS Blind, TLC, Json

VARIABLE got
Pieces == << "key", "script", "value", "asset", "nonce", "proof" >>
Sources == 1..4
Options(p) == IF p \in {"value", "proof", "nonce"} THEN {0} \cup Sources ELSE Sources

(* --------------------------------------------------- what the sources are *)
A32(x) == <<x>> \o Zeros(31)
\* outputs 1 and 4 share owner and script
Alike(x) == IF x = 4 THEN 1 ELSE x
KeyOf(s)    == A32(10 + Alike(s))
ScriptOf(s) == IF s = 3 THEN <<>> ELSE <<81, Alike(s)>>
Amount(s)   == Zeros(7) \o <<30 + s>>
AssetOf2(s) == A32(100 + s)
AbfOf(s)    == IF s = 3 THEN Null32 ELSE A32(50 + s)
BfOf(s)     == A32(60 + s)
NonceField  == [s \in 0..4 |-> IF s = 0 THEN <<1>> \o A32(70) ELSE
                               IF s = 3 THEN <<>> ELSE PubOf(A32(70 + s))]
GenAt       == [s \in Sources |-> GenOf(AssetOf2(s), AbfOf(s))]
ValueField  == [s \in 0..4 |-> IF s = 0 THEN <<1>> \o Amount(1)
                               ELSE ComOf(GenAt[s], Amount(s), BfOf(s))]
AssetField(s) == IF s = 3 THEN <<1>> \o AssetOf2(s) ELSE GenAt[s]
Proof == [s \in 0..4 |-> IF s = 0 THEN <<>> ELSE
           RpOf(0, 52, Zeros(7) \o <<IF s = 3 THEN 0 ELSE 1>>, Amount(s), BfOf(s),
                AssetOf2(s) \o AbfOf(s),
                IF s = 3 THEN KeyOf(s) ELSE NonceOf(KeyOf(s), NonceField[s]),
                ValueField[s], GenAt[s], ScriptOf(s))]

(* ----------------------------------------------------------- collections *)
Done == Len(got) = Len(Pieces)
Of(p) == got[CHOOSE i \in 1..Len(Pieces) : Pieces[i] = p]
Result == UnblindOf(KeyOf(Of("key")),
                    [asset |-> AssetField(Of("asset")), value |-> ValueField[Of("value")],
                     nonce |-> NonceField[Of("nonce")], script |-> ScriptOf(Of("script"))],
                    Proof[Of("proof")])
Belongs(s) == /\ Of("value") = s /\ Of("asset") = s /\ Of("nonce") = s /\ Of("proof") = s
              /\ Alike(Of("key")) = Alike(s)
              \* the amount of an issuance is not bound to a script
              /\ s # 3 => Alike(Of("script")) = Alike(s)

OnlyRight == Done => (Result.ok <=> \E s \in Sources : Belongs(s))
OpensTo   == Done /\ Result.ok => \E s \in Sources :
               /\ Belongs(s)
               /\ Result.amt = Amount(s) /\ Result.bf = BfOf(s)
               /\ Result.asset = AssetOf2(s) /\ Result.abf = AbfOf(s)
Emit == Done => PrintT("@C " \o ToJson(
  [key |-> Of("key"), script |-> Of("script"), value |-> Of("value"), asset |-> Of("asset"),
   nonce |-> Of("nonce"), proof |-> Of("proof"), ok |-> Result.ok]))

Init == got = <<>>
Next == ~Done /\ \E c \in Options(Pieces[Len(got) + 1]) : got' = Append(got, c)
=============================================================================
