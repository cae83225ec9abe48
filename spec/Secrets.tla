------------------------------ MODULE Secrets ------------------------------
(***************************************************************************)
(* Where the secrets of blindings come from.  A source of randomness gives *)
(* bytes; a secret is 32 bytes of what it gave, taken as they are.  The    *)
(* ledger below tells which bytes have been given out as part of a secret: *)
(* none is ever given out twice, by whatever call or process.              *)
(*                                                                         *)
(*   drawn  what every source has given so far, a sequence of bytes        *)
(*   used   << source, position >> of each secret made                     *)
(*   bad    what went wrong                                                *)
(***************************************************************************)
EXTENDS Zkp, TLC

Width == 32
Blank == [drawn |-> << >>, used |-> {}, bad |-> {}]
DrawnOf(s, src) == IF src \in DOMAIN s.drawn THEN s.drawn[src] ELSE << >>
Give(s, src, b) == [s EXCEPT !.drawn = (src :> (DrawnOf(s, src) \o b)) @@ @]

(* the piece at a position lies within what the source gave *)
Within(s, src, at) == at >= 1 /\ at + Width - 1 <= Len(DrawnOf(s, src))
Piece(s, src, at)  == SubSeq(DrawnOf(s, src), at, at + Width - 1)
Overlaps(s, src, at) == \E u \in s.used : u[1] = src /\ u[2] - at < Width /\ at - u[2] < Width

(* what: the kind of secret; val: the secret itself or what is seen of it *)
Shown(what, piece) == IF what = "ephemeral-key" THEN PubOf(piece) ELSE piece
Use(s, src, what, val, at) ==
  IF ~Within(s, src, at) \/ Shown(what, Piece(s, src, at)) # val
  THEN [s EXCEPT !.bad = @ \cup {what \o "-not-drawn"}]
  ELSE IF Overlaps(s, src, at) THEN [s EXCEPT !.bad = @ \cup {what \o "-drawn-before"}]
  ELSE [s EXCEPT !.used = @ \cup {<< src, at >>}]

(***************************************************************************)
(* The secrets of one blinding: for every amount issued a factor; for      *)
(* every output a factor - except that of the last, which is determined by *)
(* the others -, a factor for the asset, a key whose public part is the    *)
(* nonce of the output, and the seed of its surjection proof.              *)
(***************************************************************************)
Needs(iss, outs) == iss + 4 * outs - 1        \* outs > 0
NeedsOf(iss, outs) ==
  [i \in 1..iss |-> "factor"]
  \o Cat([i \in 1..outs |-> (IF i = outs THEN << "determined" >> ELSE << "factor" >>)
                            \o << "asset-factor", "ephemeral-key", "seed" >>])
=============================================================================
