------------------------------ MODULE TraceSign ------------------------------
(* Recorded histories of signing, changing and evaluating inputs of one living
   transaction, judged step by step against Sign. *)
EXTENDS Sign, TraceKit

VARIABLES h, k, st
Steps(n) == Trace[n].steps
If(c, name) == IF c THEN {name} ELSE {}

TCoinOf(c) == [kind |-> c.kind, codes |-> [i \in 1..Len(c.codes) |-> Hex2B(c.codes[i])], out |-> TOut(c.out)]
TCoins(cs) == [i \in 1..Len(cs) |-> TCoinOf(cs[i])]

(* e.from[i]: where input i was before the change, 0 if it is new *)
Apply(s, e) ==
  CASE e.k = "start" -> [tx |-> T(e.tx), coins |-> TCoins(e.coins), gen |-> Hex2B(e.gen),
                         sigs |-> [i \in 1..Len(e.coins) |-> << >>]]
    [] e.k = "sign"  -> IF MaySign(s, e.i, e.hts) THEN Signed(s, e.i, e.hts) ELSE s
    [] e.k = "edit"  -> [tx |-> T(e.tx), coins |-> TCoins(e.coins), gen |-> Hex2B(e.gen),
                         sigs |-> [i \in 1..Len(e.from) |-> IF e.from[i] = 0 THEN << >> ELSE s.sigs[e.from[i]]]]
    [] e.k = "look"  -> s

(* the transaction without the signatures it carries *)
Bare(tx) == [tx EXCEPT !.vin = [i \in 1..Len(tx.vin) |-> [tx.vin[i] EXCEPT !.script = <<>>]],
                       !.inwit = [i \in 1..Len(tx.inwit) |-> [tx.inwit[i] EXCEPT !.sw = <<>>]]]

Judge(s, e) ==
  CASE e.k \in {"start", "edit"} -> {}
    [] e.k = "sign" ->
         UNION { LET code == s.coins[e.i].codes[j] IN
                 IF HasDigest(s, e.i, code, e.hts[j])
                 THEN If(e.digests[j] # B2Hex(DigestOf(s, e.i, code, e.hts[j])), "digest-to-sign")
                 ELSE If(SubSeq(e.digests[j], 1, 1) # "!", "digest-of-nothing-to-sign") : j \in 1..Len(e.hts) }
    [] e.k = "look" ->
         If(T(e.tx) # Bare(s.tx), "transaction-changed-by-itself") \cup
         UNION { UNION { If(v.ok[j] # "T" /\ Accepts(s, v.i), "good-signature-refused") \cup
                         If(v.ok[j] = "T" /\ ~Accepts(s, v.i), "bad-signature-accepted") :
                         j \in 1..Len(v.ok) } : v \in {e.views[n] : n \in 1..Len(e.views)} }

Init == h \in 1..Len(Trace) /\ k = 0 /\ st = << <<>>, <<>> >>
Next == /\ k < Len(Steps(h))
        /\ k' = k + 1
        /\ st' = << st[2], Apply(st[2], Steps(h)[k + 1]) >>
        /\ UNCHANGED h
Conforms == k > 0 => Report(h, Judge(st[1], Steps(h)[k]))
=============================================================================
