----------------------------- MODULE RangeInfo -----------------------------
(***************************************************************************)
(* What a range proof shows to anybody: its exponent, its size in bits and *)
(* the smallest and largest amount it could hide (8 bytes each, the        *)
(* largest one modulo 2^64, as the library computes it).                   *)
(***************************************************************************)
EXTENDS Zkp

(* 2^b - 1 as 8 bytes *)
Mask(b) == [k \in 1..8 |-> LET n == b - 8 * (8 - k) IN
                           IF n >= 8 THEN 255 ELSE IF n <= 0 THEN 0 ELSE 2 ^ n - 1]
Add8(x, y) == LET s == NumAdd(<<0>> \o x, y) IN SubSeq(s, 2, 9)

NoInfo    == [ok |-> FALSE, exp |-> 0, mant |-> 0, min |-> <<>>, max |-> <<>>]
InfoOf(p) == IF ~RpWF(p) THEN NoInfo
             ELSE [ok |-> TRUE, exp |-> p[3] - 1, mant |-> p[4], min |-> RpMin(p),
                   max |-> Add8(RpMin(p), Mask(p[4]))]
=============================================================================
