------------------------------- MODULE WireMC -------------------------------
(***************************************************************************)
(* A small but complete universe of transactions.  TLC enumerates it,      *)
(* checks the design properties of the encoding on every member, and       *)
(* prints every member with its encoding and id: each printed behaviour is *)
(* then replayed into the implementation.                                  *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils

CONSTANTS Deep       \* larger universe

Hsh(x) == Rep(x, 32)
Expl(k, x) == IF k = "value" THEN <<1>> \o Zeros(7) \o <<x>> ELSE <<1>> \o Hsh(x)
Comm(k, x) == << CHOOSE p \in CommPrefix(k) : \A q \in CommPrefix(k) : p <= q >> \o Hsh(x)

Isss == { NullIss,
          [NullIss EXCEPT !.amt = Expl("value", 7)],
          [NullIss EXCEPT !.keys = Comm("value", 3), !.entropy = Hsh(9)],
          [nonce |-> Hsh(4), entropy |-> Hsh(5), amt |-> Comm("value", 2), keys |-> <<>>] }
Ns   == { <<0, 0, 0, 0>>, <<255, 255, 255, 63>>, <<1, 0, 0, 32>> }
Ins  == { i \in [hash : {Hsh(17)}, n : Ns, script : {<<>>, <<81>>}, seq : {Ones32},
                 pegin : BOOLEAN, iss : Isss] : InWF(i) }
        \cup { [hash |-> Zeros(32), n |-> Ones32, script |-> <<1, 2>>, seq |-> <<0, 0, 0, 0>>,
                pegin |-> FALSE, iss |-> NullIss] }
Outs == [asset : {<<>>, Expl("asset", 8), Comm("asset", 8)},
         value : {<<>>, Expl("value", 5), Comm("value", 6)},
         nonce : {<<>>, Comm("nonce", 7)}, script : {<<>>, <<106>>}]
IWs  == { NullInWit, [NullInWit EXCEPT !.ar = <<1>>], [NullInWit EXCEPT !.kr = <<2>>],
          [NullInWit EXCEPT !.sw = << <<>> >>], [NullInWit EXCEPT !.pw = << <<3>>, <<>> >>] }
OWs  == { NullOutWit, [NullOutWit EXCEPT !.sp = <<1>>], [NullOutWit EXCEPT !.rp = <<2, 3>>] }

SomeIns  == { i \in Ins : i.script = <<>> /\ i.n # <<1, 0, 0, 32>> }
SomeOuts == { o \in Outs : o.script = <<>> /\ o.asset # <<>> }

VARIABLES tx, phase

Skeleton == [ver |-> <<2, 0, 0, 0>>, lock |-> <<0, 0, 0, 128>>, vin |-> <<>>, vout |-> <<>>,
             inwit |-> <<>>, outwit |-> <<>>]

Init == tx = Skeleton /\ phase = "in"

AddIn == /\ phase = "in" /\ Len(tx.vin) < 2
         /\ \E i \in IF Len(tx.vin) = 0 THEN Ins ELSE SomeIns :
              (Len(tx.vin) = 1 => (Deep \/ (tx.vin[1].script = <<>> /\ tx.vin[1].n = <<0, 0, 0, 0>>)))
              /\ tx' = [tx EXCEPT !.vin = Append(@, i)]
         /\ UNCHANGED phase
ToOut == phase = "in" /\ phase' = "out" /\ UNCHANGED tx
AddOut == /\ phase = "out" /\ Len(tx.vout) < (IF Len(tx.vin) = 1 /\ tx.vin[1].iss = NullIss THEN 2 ELSE 1)
          /\ \E o \in IF Len(tx.vin) = 1 /\ Len(tx.vout) = 0 THEN Outs
                      ELSE IF Deep THEN SomeOuts ELSE { x \in SomeOuts : x.nonce = <<>> } :
               tx' = [tx EXCEPT !.vout = Append(@, o)]
          /\ UNCHANGED phase
Fill == /\ phase = "out" /\ phase' = "done"
        /\ \/ UNCHANGED tx
           \/ /\ Deep \/ Len(tx.vin) + Len(tx.vout) <= 2
              /\ \A k \in 1..Len(tx.vout) : Deep \/ tx.vout[k] \in SomeOuts
              /\ \A k \in 1..Len(tx.vin) : tx.vin[k].script = <<>>
              /\ \E iw \in [1..Len(tx.vin) -> IWs] \cup {<<>>} :
                 \E ow \in [1..Len(tx.vout) -> OWs] \cup {<<>>} :
                   tx' = [tx EXCEPT !.inwit = iw, !.outwit = ow]
Next == AddIn \/ ToOut \/ AddOut \/ Fill

Emit == phase = "done" => PrintT("@C " \o ToJson([tx |-> J(tx), ser |-> B2Hex(Ser(tx)),
                                                  txid |-> B2Hex(TxId(tx)), full |-> B2Hex(FullHash(tx)),
                                                  vsize |-> VSize(tx)]))

(* design properties *)
InDomain  == WF(tx)
RoundTrip == LET r == Parse(Ser(tx)) IN r.ok /\ SameTx(r.v, tx)
IdNoWit   == TxId(tx) = TxId([tx EXCEPT !.inwit = <<>>, !.outwit = <<>>])
FlagExact == (Ser(tx)[5] = 1) = HasWit(tx)
HashWit   == (FullHash(tx) = TxId(tx)) = ~HasWit(tx)
Truncated == phase = "done" =>
  LET s == Ser(tx) IN
  \A n \in 0..(Len(s) - 1) : (n % 7 = 0 \/ n > Len(s) - 5 \/ n < 12)
                               => ~Parse(SubSeq(s, 1, n)).ok
(* every one-byte change that is accepted re-encodes to itself, or only
   drops the data of a null issuance *)
Mutate(b, k, x) == [b EXCEPT ![k] = x]
Canonical == phase = "done" =>
  LET s == Ser(tx) IN
  \A k \in 1..Len(s) : (k % 13 = Len(s) % 13 \/ k \in {5, 6, 42}) =>
    \A x \in {0, 1, 8, 10, 255} \ {s[k]} :
      LET m == Mutate(s, k, x)
          r == Parse(m)
      IN r.ok => \/ Ser(r.v) = m
                 \/ Len(Ser(r.v)) < Len(m)
                    /\ \E i \in 1..Len(r.v.vin) : IssIsNull(r.v.vin[i].iss)
=============================================================================
