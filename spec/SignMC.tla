------------------------------- MODULE SignMC -------------------------------
(***************************************************************************)
(* Two coins are spent together; the second owner signs, then the first    *)
(* one, with any hash type, then the transaction (or what the verifier is  *)
(* told about the coins) is changed.  A signature stays good exactly when  *)
(* none of the changes is one its hash type binds its maker to.  All       *)
(* histories are carried out with real keys and evaluated.                 *)
(***************************************************************************)
EXTENDS Sign, Json, TLC

CONSTANTS Flavours, NEdits

Pub    == PubOf(Zeros(31) \o <<1>>)
H160Pub  == << 117, 30, 118, 232, 25, 145, 150, 212, 84, 148, 28, 69, 209, 179, 163, 35, 241, 67, 59, 214 >>
H160Pk   == << 35, 176, 173, 52, 119, 242, 23, 139, 192, 179, 238, 210, 110, 78, 99, 22, 244, 232, 58, 161 >>
H160Wpkh == << 188, 254, 183, 40, 181, 132, 37, 61, 95, 63, 112, 188, 183, 128, 233, 239, 33, 138, 104, 244 >>
H160Wsh  == << 228, 48, 5, 49, 25, 5, 135, 227, 136, 13, 76, 48, 4, 245, 53, 93, 136, 255, 146, 141 >>
PkCode == << 33 >> \o Pub \o << 172 >>                        \* <pub> CHECKSIG
PkhCode == << 118, 169, 20 >> \o H160Pub \o << 136, 172 >>
P2sh(h) == << 169, 20 >> \o h \o << 135 >>
SepCode == << 33 >> \o Pub \o << 173, 171, 33 >> \o Pub \o << 172 >>   \* <pub> CHECKSIGVERIFY CODESEPARATOR <pub> CHECKSIG
Pub2   == PubOf(Zeros(31) \o <<2>>)
MsCode == << 82, 33 >> \o Pub \o << 33 >> \o Pub2 \o << 82, 174 >>         \* 2 <pub> <pub2> 2 CHECKMULTISIG
Internal == SubSeq(Pub, 2, 33)
XCode   == << 32 >> \o Internal \o << 172 >>
KeyOut(root) == << 81, 32 >> \o SubSeq(OutputKey(Internal, root), 2, 33)
FKind(f) == CASE f \in {"pk", "pkh", "sh", "sep", "ms"} -> "leg"
              [] f \in {"wpkh", "shwpkh", "wsh", "shwsh", "wms"} -> "v0"
              [] f = "tr" -> "key" [] f = "trs" -> "leaf"
FCodes(f) == CASE f \in {"pk", "sh", "wsh", "shwsh"} -> << PkCode >>
               [] f \in {"pkh", "wpkh", "shwpkh"} -> << PkhCode >>
               [] f = "sep" -> << SepCode, << 33 >> \o Pub \o << 172 >> >>
               [] f \in {"ms", "wms"} -> << MsCode, MsCode >>
               [] f = "tr" -> << <<>> >>
               [] f = "trs" -> << XCode >>
FSpk(f) == CASE f = "pk" -> PkCode [] f = "pkh" -> PkhCode [] f = "sep" -> SepCode
             [] f = "sh" -> P2sh(H160Pk) [] f = "wpkh" -> << 0, 20 >> \o H160Pub
             [] f = "shwpkh" -> P2sh(H160Wpkh) [] f = "wsh" -> << 0, 32 >> \o Sha256(PkCode)
             [] f = "shwsh" -> P2sh(H160Wsh)
             [] f = "ms" -> MsCode [] f = "wms" -> << 0, 32 >> \o Sha256(MsCode)
             [] f = "tr" -> KeyOut(<<>>) [] f = "trs" -> KeyOut(LeafHash(LeafVersion, XCode))

X(b) == Rep(b, 32)
Iss  == [nonce |-> Zeros(32), entropy |-> X(4), amt |-> <<1>> \o Zeros(7) \o <<9>>, keys |-> <<1>> \o Zeros(7) \o <<1>>]
CoinOf(f, x) == [kind |-> FKind(f), codes |-> FCodes(f),
                 out |-> [asset |-> << 10 >> \o X(x), value |-> << 8 >> \o X(x), nonce |-> << 2 >> \o X(x), script |-> FSpk(f)]]
Vin(x, iss)  == [hash |-> X(x), n |-> << x, 0, 0, 0 >>, script |-> <<>>, seq |-> << x, 255, 255, 255 >>,
                 pegin |-> FALSE, iss |-> IF iss THEN Iss ELSE NullIss]
Vout(x)      == [asset |-> << 11 >> \o X(x), value |-> << 1 >> \o Zeros(7) \o << x >>, nonce |-> << 3 >> \o X(x), script |-> << 118, x >>]
Start(f) ==
  [tx |-> [ver |-> <<2, 0, 0, 0>>, lock |-> <<1, 2, 3, 0>>, vin |-> << Vin(21, TRUE), Vin(22, FALSE) >>,
           vout |-> << Vout(31), Vout(32) >>,
           inwit |-> << [NullInWit EXCEPT !.ar = <<41>>], NullInWit >>,
           outwit |-> << [sp |-> <<51>>, rp |-> <<52>>], NullOutWit >>],
   coins |-> << CoinOf(f, 61), CoinOf("wpkh", 62) >>, gen |-> X(72), sigs |-> << <<>>, <<>> >>]

(* ------------------------------------------------------------ changes *)
Edits == {"ver", "lock", "hash1", "hash2", "n2", "seq1", "seq2", "pegin1", "pegin2", "iss1", "iss2", "noiss1",
          "value1", "value2", "asset1", "nonce1", "nonce2", "script1", "script2", "sp1", "rp2", "ar1", "ar2",
          "addin", "addout", "dropout", "coinvalue1", "coinvalue2", "coinasset1", "coinasset2", "coinnonce1",
          "coinscript2", "gen", "swapout"}
Bump(b) == [b EXCEPT ![Len(b)] = (@ + 1) % 256]
Put(s, f) ==
  CASE f = "ver" -> [s EXCEPT !.tx.ver = Bump(@)]
    [] f = "lock" -> [s EXCEPT !.tx.lock = Bump(@)]
    [] f = "hash1" -> [s EXCEPT !.tx.vin[1].hash = Bump(@)]
    [] f = "hash2" -> [s EXCEPT !.tx.vin[2].hash = Bump(@)]
    [] f = "n2" -> [s EXCEPT !.tx.vin[2].n = <<5, 0, 0, 0>>]
    [] f = "seq1" -> [s EXCEPT !.tx.vin[1].seq = Bump(@)]
    [] f = "seq2" -> [s EXCEPT !.tx.vin[2].seq = Bump(@)]
    [] f = "pegin1" -> [s EXCEPT !.tx.vin[1].pegin = ~@]
    [] f = "pegin2" -> [s EXCEPT !.tx.vin[2].pegin = ~@]
    [] f = "iss1" -> [s EXCEPT !.tx.vin[1].iss.keys = Bump(@)]
    [] f = "iss2" -> [s EXCEPT !.tx.vin[2].iss = Iss]
    [] f = "noiss1" -> [s EXCEPT !.tx.vin[1].iss = NullIss]
    [] f = "value1" -> [s EXCEPT !.tx.vout[1].value = Bump(@)]
    [] f = "value2" -> [s EXCEPT !.tx.vout[2].value = Bump(@)]
    [] f = "asset1" -> [s EXCEPT !.tx.vout[1].asset = Bump(@)]
    [] f = "nonce1" -> [s EXCEPT !.tx.vout[1].nonce = Bump(@)]
    [] f = "nonce2" -> [s EXCEPT !.tx.vout[2].nonce = <<>>]
    [] f = "script1" -> [s EXCEPT !.tx.vout[1].script = Append(@, 81)]
    [] f = "script2" -> [s EXCEPT !.tx.vout[2].script = <<>>]
    [] f = "sp1" -> [s EXCEPT !.tx.outwit[1].sp = Bump(@)]
    [] f = "rp2" -> [s EXCEPT !.tx.outwit[2].rp = <<1>>]
    [] f = "ar1" -> [s EXCEPT !.tx.inwit[1].ar = Bump(@)]
    [] f = "ar2" -> [s EXCEPT !.tx.inwit[2].ar = <<1>>]
    [] f = "addin" -> [s EXCEPT !.tx.vin = Append(@, Vin(23, FALSE)), !.coins = Append(@, CoinOf("pkh", 63)),
                                !.tx.inwit = Append(@, NullInWit), !.sigs = Append(@, <<>>)]
    [] f = "addout" -> [s EXCEPT !.tx.vout = Append(@, Vout(33)), !.tx.outwit = Append(@, NullOutWit)]
    [] f = "dropout" -> [s EXCEPT !.tx.vout = << @[1] >>, !.tx.outwit = << @[1] >>]
    [] f = "coinvalue1" -> [s EXCEPT !.coins[1].out.value = << 1 >> \o Zeros(7) \o << 61 >>]
    [] f = "coinvalue2" -> [s EXCEPT !.coins[2].out.value = Bump(@)]
    [] f = "coinasset1" -> [s EXCEPT !.coins[1].out.asset = Bump(@)]
    [] f = "coinasset2" -> [s EXCEPT !.coins[2].out.asset = <<>>]
    [] f = "coinnonce1" -> [s EXCEPT !.coins[1].out.nonce = Bump(@)]
    [] f = "coinscript2" -> [s EXCEPT !.coins[2].out.script = << 0, 20 >> \o Rep(1, 20)]
    [] f = "gen" -> [s EXCEPT !.gen = Bump(@)]
    [] f = "swapout" -> [s EXCEPT !.tx.vout = << @[2], @[1] >>, !.tx.outwit = << @[2], @[1] >>]
TwoOuts == {"value2", "nonce2", "script2", "rp2", "swapout", "dropout"}

(* the table: is the maker of a signature for input i bound to f? *)
Binds(kind, ht, i, f) ==
  LET base == CASE ht % 32 = 2 -> "none" [] ht % 32 = 3 -> "single" [] OTHER -> "all"
      acp  == ht >= 128
      tap  == TapSide(kind)
      me   == i = 1
      seen(k) == ~acp \/ k = i
      out(k)  == base = "all" \/ (base = "single" /\ k = i)
  IN CASE f \in {"ver", "lock"} -> TRUE
       [] f = "hash1" -> seen(1) [] f \in {"hash2", "n2"} -> seen(2)
       [] f = "seq1" -> IF tap THEN seen(1) ELSE i = 1 \/ (~acp /\ base = "all")
       [] f = "seq2" -> IF tap THEN seen(2) ELSE i = 2 \/ (~acp /\ base = "all")
       [] f = "pegin1" -> tap /\ seen(1) [] f = "pegin2" -> tap /\ seen(2)
       [] f \in {"iss1", "noiss1"} -> seen(1) [] f = "iss2" -> seen(2)
       [] f \in {"value1", "asset1", "nonce1", "script1"} -> out(1)
       [] f \in {"value2", "nonce2", "script2"} -> out(2)
       [] f = "sp1" -> tap /\ out(1) [] f = "rp2" -> tap /\ out(2)
       [] f = "ar1" -> tap /\ seen(1) [] f = "ar2" -> tap /\ ~acp
       [] f = "addin" -> ~acp
       [] f = "addout" -> base = "all"
       [] f = "dropout" -> base = "all" \/ (base = "single" /\ i = 2)
       [] f = "swapout" -> base # "none"
       [] f = "coinvalue1" -> IF tap THEN seen(1) ELSE kind = "v0" /\ i = 1
       [] f = "coinvalue2" -> IF tap THEN seen(2) ELSE kind = "v0" /\ i = 2
       [] f = "coinasset1" -> tap /\ seen(1) [] f = "coinasset2" -> tap /\ seen(2)
       [] f = "coinscript2" -> tap /\ seen(2)
       [] f = "coinnonce1" -> FALSE
       [] f = "gen" -> tap

(* ------------------------------------------------------------ the system *)
VARIABLES fl, s, hts, edits, stage
vars == << fl, s, hts, edits, stage >>
HTs == {1, 2, 3, 129, 130, 131}
Init == /\ fl \in Flavours /\ hts = << >> /\ edits = {} /\ stage = "signing"
        /\ s = Signed(Start(fl), 2, << 1 >>)
Sign1 == /\ stage = "signing" /\ stage' = "changing"
         /\ \E t \in HTs \cup (IF TapSide(FKind(fl)) THEN {0} ELSE {}), second \in {"same", "all"} :
              /\ Len(FCodes(fl)) = 1 => second = "same"
              /\ hts' = [k \in 1..Len(FCodes(fl)) |-> IF k = 2 /\ second = "all" THEN 1 ELSE t]
              /\ s' = Signed(s, 1, hts')
         /\ UNCHANGED << fl, edits >>
(* two changes that undo or hide each other are not combined *)
Apart(f) ==
  LET others == IF f \in TwoOuts THEN edits \cap TwoOuts ELSE {} IN
  CASE f \in {"swapout", "dropout"} ->
         others = {} /\ edits \cap {"value1", "asset1", "nonce1", "script1", "sp1", "addout"} = {}
    [] f \in {"value1", "asset1", "nonce1", "script1", "sp1", "addout"} -> edits \cap {"swapout", "dropout"} = {}
    [] f \in TwoOuts -> others \cap {"swapout", "dropout"} = {}
    [] f \in {"iss1", "noiss1", "ar1"} -> edits \cap {"iss1", "noiss1", "ar1"} = {}
    [] OTHER -> TRUE
Change == /\ stage = "changing" /\ Cardinality(edits) < NEdits
          /\ \E f \in Edits : /\ f \notin edits /\ Apart(f)
                              /\ edits' = edits \cup {f} /\ s' = Put(s, f)
          /\ UNCHANGED << fl, hts, stage >>
Next == Sign1 \/ Change

Bound(i, kind, t) == \E f \in edits : Binds(kind, t, i, f)
FirstStands  == stage = "changing" => (Accepts(s, 1) = \A k \in 1..Len(hts) : ~Bound(1, FKind(fl), hts[k]))
SecondStands == Accepts(s, 2) = ~Bound(2, "v0", 1)
Emit == stage = "changing" =>
  PrintT("@C " \o ToJson([fl |-> << fl, "wpkh", "pkh" >>, tx |-> J(s.tx), gen |-> B2Hex(s.gen), edits |-> edits,
    coins |-> [i \in 1..Len(s.coins) |-> JOut(s.coins[i].out)],
    codes |-> [i \in 1..Len(s.coins) |-> [k \in 1..Len(s.coins[i].codes) |-> B2Hex(s.coins[i].codes[k])]],
    sigs |-> [i \in 1..2 |-> [k \in 1..Len(s.sigs[i]) |-> [ht |-> s.sigs[i][k].ht, digest |-> B2Hex(s.sigs[i][k].digest)]]],
    good |-> [i \in 1..2 |-> Accepts(s, i) /\ s.coins[i].out.script = FSpk(<< fl, "wpkh" >>[i])]]))
=============================================================================
