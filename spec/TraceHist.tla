----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Histories of one mutable transaction: a state machine whose state is    *)
(* the abstract transaction and whose transitions are the modifications a  *)
(* program can make.  Each recorded step carries what the implementation   *)
(* reported after it (ids, hashes, encodings of the whole and of parts);   *)
(* these must be the ones of the model state, whatever was queried before. *)
(***************************************************************************)
EXTENDS Wire, TraceKit

VARIABLES h, k, tx       \* history, steps done, model state

Steps(n) == Trace[n].steps

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Apply(t, o) ==
  CASE o.op = "none"   -> t
    [] o.op = "ver"    -> [t EXCEPT !.ver = Hex2B(o.v)]
    [] o.op = "lock"   -> [t EXCEPT !.lock = Hex2B(o.v)]
    \* a new input or output brings an empty witness if the list is in use
    [] o.op = "addin"  -> [t EXCEPT !.vin = Append(@, TIn(o.v)),
                                    !.inwit = IF t.inwit = <<>> THEN @ ELSE Append(@, NullInWit)]
    [] o.op = "addout" -> [t EXCEPT !.vout = Append(@, TOut(o.v)),
                                    !.outwit = IF t.outwit = <<>> THEN @ ELSE Append(@, NullOutWit)]
    [] o.op = "delin"  -> [t EXCEPT !.vin = DropAt(@, o.i),
                                    !.inwit = IF t.inwit = <<>> THEN @ ELSE DropAt(@, o.i)]
    [] o.op = "delout" -> [t EXCEPT !.vout = DropAt(@, o.i),
                                    !.outwit = IF t.outwit = <<>> THEN @ ELSE DropAt(@, o.i)]
    [] o.op = "in"     -> [t EXCEPT !.vin[o.i] = TIn(o.v)]
    [] o.op = "hash"   -> [t EXCEPT !.vin[o.i].hash = Hex2B(o.v)]
    [] o.op = "n"      -> [t EXCEPT !.vin[o.i].n = Hex2B(o.v)]
    [] o.op = "sig"    -> [t EXCEPT !.vin[o.i].script = Hex2B(o.v)]
    [] o.op = "seq"    -> [t EXCEPT !.vin[o.i].seq = Hex2B(o.v)]
    [] o.op = "pegin"  -> [t EXCEPT !.vin[o.i].pegin = o.v]
    [] o.op = "iss"    -> [t EXCEPT !.vin[o.i].iss = [nonce |-> Hex2B(o.v.nonce), entropy |-> Hex2B(o.v.entropy),
                                                     amt |-> Hex2B(o.v.amt), keys |-> Hex2B(o.v.keys)]]
    [] o.op = "out"    -> [t EXCEPT !.vout[o.i] = TOut(o.v)]
    [] o.op = "asset"  -> [t EXCEPT !.vout[o.i].asset = Hex2B(o.v)]
    [] o.op = "value"  -> [t EXCEPT !.vout[o.i].value = Hex2B(o.v)]
    [] o.op = "nonce"  -> [t EXCEPT !.vout[o.i].nonce = Hex2B(o.v)]
    [] o.op = "spk"    -> [t EXCEPT !.vout[o.i].script = Hex2B(o.v)]
    [] o.op = "wit"    -> [t EXCEPT !.inwit = [i \in 1..Len(o.v.inwit) |-> TInWit(o.v.inwit[i])],
                                    !.outwit = [i \in 1..Len(o.v.outwit) |-> TOutWit(o.v.outwit[i])]]
    [] o.op = "inwit"  -> [t EXCEPT !.inwit[o.i] = TInWit(o.v)]
    [] o.op = "ar"     -> [t EXCEPT !.inwit[o.i].ar = Hex2B(o.v)]
    [] o.op = "sw"     -> [t EXCEPT !.inwit[o.i].sw = HSeq(o.v)]
    [] o.op = "outwit" -> [t EXCEPT !.outwit[o.i] = TOutWit(o.v)]
    [] o.op = "rp"     -> [t EXCEPT !.outwit[o.i].rp = Hex2B(o.v)]

If(c, name) == IF c THEN {name} ELSE {}

(* one query and its recorded answer; c is the model state *)
Ask(c, q) ==
  CASE q.q = "txid"   -> If(q.a # B2Hex(TxId(c)), "txid")
    [] q.q = "hash"   -> If(q.a # B2Hex(FullHash(c)), "full-hash")
    [] q.q = "ser"    -> If(q.a # B2Hex(Ser(c)), "encoding-after-modification")
    [] q.q = "inhash" -> If(q.a # B2Hex(Hash256(InSer(c.vin[q.i]))), "input-hash")
    [] q.q = "ophash" -> If(q.a # B2Hex(Hash256(OutpointSer(c.vin[q.i]))), "outpoint-hash")
    [] q.q = "outhash" -> If(q.a # B2Hex(Hash256(OutSer(c.vout[q.i]))), "output-hash")
    [] q.q = "inwithash" -> If(q.a # B2Hex(Hash256(InWitSer(c.inwit[q.i]))), "input-witness-hash")
    [] q.q = "outwithash" -> If(q.a # B2Hex(Hash256(OutWitSer(c.outwit[q.i]))), "output-witness-hash")
    \* taken on an immutable copy made at this point of the history
    [] q.q = "ctxid"  -> If(q.a # B2Hex(TxId(c)), "txid-of-copy")
    [] q.q = "chash"  -> If(q.a # B2Hex(FullHash(c)), "full-hash-of-copy")
    \* comparison with an object built from scratch with abstract value q.o
    [] q.q = "eq"     -> LET same == Ser(c) = Ser(T(q.o)) IN
                         If(q.a # (IF same THEN "T" ELSE "F"), "equality") \cup
                         If(q.ne # (IF same THEN "F" ELSE "T"), "inequality") \cup
                         If(same /\ q.h # "T", "equal-objects-hash-equal") \cup
                         If(~same /\ q.h = "T", "hash-follows-encoding")
    [] q.q = "eqpart" -> LET s == CASE q.w = "in" -> InSer(TIn(q.x)) [] q.w = "out" -> OutSer(TOut(q.x))
                                    [] q.w = "inwit" -> InWitSer(TInWit(q.x)) [] q.w = "outwit" -> OutWitSer(TOutWit(q.x))
                             u == CASE q.w = "in" -> InSer(TIn(q.y)) [] q.w = "out" -> OutSer(TOut(q.y))
                                    [] q.w = "inwit" -> InWitSer(TInWit(q.y)) [] q.w = "outwit" -> OutWitSer(TOutWit(q.y))
                         IN If(q.a # (IF s = u THEN "T" ELSE "F"), "part-equality") \cup
                            If(q.h # q.a, "part-hash-follows-equality")

Judge(n, j, t) ==
  UNION { Ask(t, Steps(n)[j].asks[m]) : m \in 1..Len(Steps(n)[j].asks) }

Init == h \in 1..Len(Trace) /\ k = 0 /\ tx = T(Trace[h].tx)
Next == /\ k < Len(Steps(h))
        /\ k' = k + 1
        /\ tx' = Apply(tx, Steps(h)[k + 1])
        /\ UNCHANGED h
Conforms == k > 0 => Report(h, Judge(h, k, tx))
=============================================================================
