---------------------------- MODULE RangeInfoMC ----------------------------
(***************************************************************************)
(* A proof is made with some parameters, sent, perhaps damaged on the way, *)
(* and looked at.  What is seen must be what it was made with, nothing     *)
(* must be seen in what is not a proof, and the hidden amount must lie in  *)
(* the reported range.  Every look is replayed.                            *)
(***************************************************************************)
EXTENDS RangeInfo, TLC, Json, Integers

CONSTANTS Exps, Sizes, Msgs
SomeExps == {-1, 0, 1, 18}
AllExps  == -1..18
AllSizes == 0..64
VARIABLES made, p

Vals == { Zeros(8), Zeros(7) \o <<1>>, Zeros(7) \o <<2>>, <<0, 0, 0, 1, 0, 0, 0, 0>>,
          <<127>> \o Rep(255, 7), Rep(255, 8) }
Mins == { Zeros(8), Zeros(7) \o <<1>>, <<0, 0, 0, 1, 0, 0, 0, 0>>, <<0, 0, 0, 0, 255, 255, 255, 255>> }
NLE(a, b) == ~NumLT(b, a)
Nothing == [exp |-> 0, bits |-> 0, min |-> <<>>, v |-> <<>>, n |-> 0]

Init == made = Nothing /\ p = <<>>
Make == /\ made = Nothing
        /\ \E e \in Exps, b \in Sizes, m \in Mins, v \in Vals, n \in Msgs :
             /\ NLE(m, v)
             /\ made' = [exp |-> e, bits |-> b, min |-> m, v |-> v, n |-> n]
             /\ p' = RpOf(e, b, m, v, Rep(7, 32), Rep(9, n), Rep(3, 32), Rep(8, 33), Rep(10, 33), <<81>>)
\* damage: cut, extended, another beginning
Damage == /\ made # Nothing /\ RpWF(p) /\ made.v = Zeros(7) \o <<2>>
          /\ \E q \in { SubSeq(p, 1, k) : k \in {0, 1, 54, 117, Len(p) - 1} }
                      \cup { p \o <<0>>, [p EXCEPT ![1] = 83], [p EXCEPT ![2] = 0] } : p' = q
          /\ UNCHANGED made
Next == Make \/ Damage

I == InfoOf(p)
Faithful == I.ok => I.exp = made.exp /\ I.mant = made.bits /\ I.min = made.min
Nothing2 == ~I.ok <=> (made = Nothing \/ ~RpWF(p))
\* an amount that was in range when the proof was made is in the reported one
InRange  == I.ok /\ NLE(made.min, I.max) => NLE(I.min, I.max)
Covers   == I.ok /\ made.bits = 64 /\ made.min = Zeros(8) => NLE(made.v, I.max)
Width    == I.ok /\ made.min = Zeros(8) => (NLE(made.v, I.max) <=> NLE(made.v, Mask(made.bits)))
Emit == PrintT("@C " \o ToJson(
  [p |-> B2Hex(p), ok |-> I.ok, exp |-> I.exp, mant |-> I.mant,
   min |-> B2Hex(I.min), max |-> B2Hex(I.max)]))
=============================================================================
