------------------------------ MODULE TraceText ------------------------------
(* Recorded printed forms judged against Text.                              *)
EXTENDS Text, TraceKit

VARIABLE pos
If(c, name) == IF c THEN {name} ELSE {}
XIn(j)  == TIn(j) @@ [st |-> j.st]
XOut(j) == TOut(j) @@ [st |-> j.st]
WitOf(j) == [inwit  |-> [k \in 1..Len(j.inwit) |-> TInWit(j.inwit[k])],
             outwit |-> [k \in 1..Len(j.outwit) |-> TOutWit(j.outwit[k])]]
TxOf(j) == WitOf(j) @@ [ver |-> Hex2B(j.ver), lock |-> Hex2B(j.lock),
                        vin |-> [k \in 1..Len(j.vin) |-> XIn(j.vin[k])],
                        vout |-> [k \in 1..Len(j.vout) |-> XOut(j.vout[k])]]
IssOf(j) == [nonce |-> Hex2B(j.nonce), entropy |-> Hex2B(j.entropy),
             amt |-> Hex2B(j.amt), keys |-> Hex2B(j.keys)]
TextOf(e, full) ==
  CASE e.what = "tx" -> TxText(e.m, TxOf(e.j), full)
    [] e.what = "wit" -> WitText(e.m, WitOf(e.j))
    [] e.what = "in" -> InText(e.m, XIn(e.j), full)
    [] e.what = "out" -> OutText(e.m, XOut(e.j), full)
    [] e.what = "op" -> OutPointText(e.m, [hash |-> Hex2B(e.j.hash), n |-> Hex2B(e.j.n)], full)
    [] e.what = "inwit" -> InWitText(e.m, TInWit(e.j))
    [] e.what = "outwit" -> OutWitText(e.m, TOutWit(e.j))
    [] e.what = "iss" -> IssText(IssOf(e.j), full)
    [] e.what = "assetid" -> AssetIdText(Hex2B(e.j))
    [] OTHER -> ConfText(e.what, Hex2B(e.j), full)
Judge(e) == If(e.full # TextOf(e, TRUE), "repr-of-" \o e.what) \cup
            If(e.brief # TextOf(e, FALSE), "str-of-" \o e.what)
Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
