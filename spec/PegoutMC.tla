------------------------------ MODULE PegoutMC ------------------------------
(***************************************************************************)
(* A script is written token by token, and may be cut anywhere inside its  *)
(* last token.  What the reader of Ids finds in the bytes must be what was *)
(* written; every script is printed and replayed into the implementation.  *)
(***************************************************************************)
EXTENDS Ids, TLC, Json

CONSTANT MaxTokens

Data(n) == [i \in 1..n |-> (i * 7 + n) % 256]
Push(form, n) == [push |-> TRUE, data |-> Data(n), op |-> 0,
                  bytes |-> (CASE form = 0 -> <<n>>
                               [] form = 1 -> <<76, n>>
                               [] form = 2 -> <<77, n, 0>>
                               [] form = 4 -> <<78, n, 0, 0, 0>>) \o Data(n)]
Op(x) == [push |-> FALSE, data |-> <<>>, op |-> x, bytes |-> <<x>>]
Tokens == { Op(106), Op(81), Op(97), Op(79), Op(255),
            Push(0, 32), Push(1, 32), Push(2, 32), Push(4, 32),
            Push(0, 31), Push(0, 33), Push(0, 0), Push(1, 0), Push(0, 1), Push(4, 1) }

VARIABLES toks, cut

Init == toks = <<>> /\ cut = 0
Next == \/ /\ cut = 0 /\ Len(toks) < MaxTokens
           /\ \E t \in Tokens : toks' = Append(toks, t)
           /\ cut' = 0
        \/ /\ cut = 0 /\ Len(toks) > 0
           /\ LET n == Len(toks[Len(toks)].bytes)
              IN cut' \in { c \in {1, 2, 5, 30, 31, 32, n - 1} : 0 < c /\ c < n }
           /\ UNCHANGED toks

Whole == Cat([k \in 1..Len(toks) |-> toks[k].bytes])
Script == SubSeq(Whole, 1, Len(Whole) - cut)

(* what the writer meant *)
Meant == IF /\ Len(toks) >= 3 /\ (Len(toks) = 3 => cut = 0)
            /\ toks[1].op = 106
            /\ toks[2].push /\ Len(toks[2].data) = 32
            /\ toks[3].push /\ Len(toks[3].data) > 0
         THEN << toks[2].data, toks[3].data >> ELSE << >>
ReadsBack == PegoutOf(Script) = Meant
Show == LET r == Meant IN
  PrintT("@C " \o ToJson([k |-> "peg", script |-> B2Hex(Script),
         res |-> IF r = <<>> THEN "none" ELSE B2Hex(r[1]) \o ":" \o B2Hex(r[2]),
         uns |-> IF IsUnspendable(Script) THEN "T" ELSE "F"]))
=============================================================================
