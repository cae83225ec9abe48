------------------------------- MODULE TextMC -------------------------------
(***************************************************************************)
(* Two values of one kind.  If they differ, they print differently; what   *)
(* prints alike in brief is alike but for what is blinded.  Every value is *)
(* printed by the code as well.                                            *)
(***************************************************************************)
EXTENDS Text, Json, FiniteSets

CONSTANTS Wide

N32(x)  == [i \in 1..32 |-> (x * i) % 256]
Ids     == {Zeros(32), Rep(1, 32), N32(3)} \cup (IF Wide THEN {[Zeros(32) EXCEPT ![1] = 1], [Zeros(32) EXCEPT ![32] = 1]} ELSE {})
Amounts == {<<>>, <<1>> \o Zeros(8), <<1, 0, 0, 0, 0, 0, 0, 0, 5>>, <<8>> \o N32(5), <<1>> \o Rep(1, 8)}
           \cup (IF Wide THEN {<<1>> \o Rep(255, 8), <<1, 127>> \o Rep(255, 7), <<9>> \o N32(5), Rep(1, 33), <<1>> \o Rep(0, 32),
                               <<1, 0, 7, 117, 240, 90, 7, 64, 0>>} ELSE {})
Assets  == {<<>>, <<1>> \o N32(7), Rep(1, 33), <<10>> \o N32(7)} \cup (IF Wide THEN {<<11>> \o N32(7), Zeros(33), <<1>> \o Zeros(32)} ELSE {})
Nonces  == {<<>>, <<2>> \o N32(9), <<3>> \o N32(9)} \cup (IF Wide THEN {<<1>> \o N32(9), Rep(2, 33), Rep(1, 33)} ELSE {})
U32s    == {Zeros(4), Ones32, <<1, 0, 0, 0>>, <<0, 0, 0, 128>>, <<10, 0, 0, 0>>}
Scr     == { [script |-> <<>>, st |-> "CElementsScript([])"],
             [script |-> <<106>>, st |-> "CElementsScript([OP_RETURN])"],
             [script |-> <<81>>, st |-> "CElementsScript([1])"] }
Proofs  == {<<>>, <<0>>, <<0, 0>>, <<1, 2>>} \cup (IF Wide THEN {<<0, 1>>, <<1>>} ELSE {})
Stacks  == {<<>>, << <<>> >>, << <<1>>, <<2>> >>, << <<1, 2>> >>}

Isss == [nonce : Ids, entropy : Ids, amt : Amounts, keys : Amounts]
NoIss == [nonce |-> Zeros(32), entropy |-> Zeros(32), amt |-> <<>>, keys |-> <<>>]
SomeIss == {NoIss, [NoIss EXCEPT !.nonce = N32(3)], [NoIss EXCEPT !.entropy = N32(3)],
            [NoIss EXCEPT !.amt = <<1>> \o Zeros(8)], [NoIss EXCEPT !.keys = <<1>> \o Zeros(8)]}
Ins  == { [hash |-> h, n |-> n, seq |-> q, pegin |-> p, iss |-> i, script |-> s.script, st |-> s.st] :
            h \in {Zeros(32), N32(3)}, n \in {Zeros(4), Ones32}, q \in U32s, p \in BOOLEAN, i \in SomeIss, s \in Scr }
Outs == { [asset |-> a, value |-> v, nonce |-> n, script |-> s.script, st |-> s.st] :
            a \in Assets, v \in Amounts, n \in Nonces, s \in Scr }
InWits == { [ar |-> a, kr |-> k, sw |-> s, pw |-> p] : a \in Proofs, k \in Proofs, s \in Stacks, p \in Stacks }
OutWits == { [sp |-> a, rp |-> k] : a \in Proofs, k \in Proofs }
Ops  == [hash : Ids, n : U32s]

Values == [ iss |-> Isss, in |-> Ins, out |-> Outs, inwit |-> InWits, outwit |-> OutWits, op |-> Ops,
            value |-> Amounts, asset |-> Assets, nonce |-> Nonces, assetid |-> Ids ]
TextIn(what, v, m, full) ==
  CASE what = "iss" -> IssText(v, full) [] what = "in" -> InText(m, v, full)
    [] what = "out" -> OutText(m, v, full) [] what = "inwit" -> InWitText(m, v)
    [] what = "outwit" -> OutWitText(m, v) [] what = "op" -> OutPointText(m, v, full)
    [] what = "assetid" -> AssetIdText(v)
    [] OTHER -> ConfText(what, v, full)

VARIABLES what, val
Init == what \in DOMAIN Values /\ val \in Values[what]
Next == FALSE /\ UNCHANGED << what, val >>

(* as many texts as values: none is shared *)
TextsOf(w) == { TextIn(w, v, FALSE, TRUE) : v \in Values[w] }
Apart == \A w \in DOMAIN Values : Cardinality(TextsOf(w)) = Cardinality(Values[w])
ASSUME Apart
(* in brief, explicit values are still told apart, and the forms of a class *)
BriefApart ==
  \A k \in {"value", "asset"} :
    \A a, b \in { v \in Values[k] : CIsExpl(k, v) } :
      a # b => ConfText(k, a, FALSE) # ConfText(k, b, FALSE)
ASSUME BriefApart
ClassShown == what \in {"in", "out", "inwit", "outwit"} =>
                TextIn(what, val, TRUE, TRUE) # TextIn(what, val, FALSE, TRUE)

Jval == CASE what = "iss" -> [nonce |-> B2Hex(val.nonce), entropy |-> B2Hex(val.entropy),
                              amt |-> B2Hex(val.amt), keys |-> B2Hex(val.keys)]
          [] what = "in" -> JIn(val) [] what = "out" -> JOut(val)
          [] what = "inwit" -> [ar |-> B2Hex(val.ar), kr |-> B2Hex(val.kr),
                                sw |-> [k \in 1..Len(val.sw) |-> B2Hex(val.sw[k])],
                                pw |-> [k \in 1..Len(val.pw) |-> B2Hex(val.pw[k])]]
          [] what = "outwit" -> [sp |-> B2Hex(val.sp), rp |-> B2Hex(val.rp)]
          [] what = "op" -> [hash |-> B2Hex(val.hash), n |-> B2Hex(val.n)]
          [] OTHER -> B2Hex(val)
Case == [what |-> what, j |-> Jval, full |-> TextIn(what, val, FALSE, TRUE), brief |-> TextIn(what, val, FALSE, FALSE)]
Show == PrintT("@C " \o ToJson(
  IF what \in {"in", "out", "inwit", "outwit", "op"}
  THEN Case @@ [mfull |-> TextIn(what, val, TRUE, TRUE), mbrief |-> TextIn(what, val, TRUE, FALSE)]
  ELSE Case))
=============================================================================
