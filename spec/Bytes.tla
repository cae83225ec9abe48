------------------------------- MODULE Bytes -------------------------------
(* Byte strings and the length-prefixed encodings of the Bitcoin wire format *)
EXTENDS Prims, SequencesExt

Rep(x, n)   == [i \in 1..n |-> x]
Zeros(n)    == Rep(0, n)
Ones32      == Rep(255, 4)

(* little-endian encodings of a natural number below 2^31 *)
LE(n, w) == [i \in 1..w |->
               IF i > 4 THEN 0
               ELSE (CASE i = 1 -> n [] i = 2 -> n \div 256
                       [] i = 3 -> n \div 65536 [] i = 4 -> n \div 16777216) % 256]

(* the canonical compact-size encoding *)
Compact(n) == IF n < 253 THEN <<n>>
              ELSE IF n <= 65535 THEN <<253>> \o LE(n, 2)
              ELSE <<254>> \o LE(n, 4)

VarBytes(b) == Compact(Len(b)) \o b
SerVec(ss)  == Compact(Len(ss)) \o Cat(ss)     \* ss: already encoded elements

(***************************************************************************)
(* Parsing.  A parser takes a byte string b and a position p (1-based) and *)
(* returns [ok, v, p]: whether it succeeded, the value, the next position. *)
(***************************************************************************)
Bad          == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Got(v, p)    == [ok |-> TRUE, v |-> v, p |-> p]
Left(b, p)   == Len(b) - p + 1

PBytes(b, p, n) == IF Left(b, p) < n THEN Bad ELSE Got(SubSeq(b, p, p + n - 1), p + n)

(* Only the shortest encoding is accepted; lengths from 2^25 up are refused
   (they exceed the protocol's maximum size). *)
PCompact(b, p) ==
  IF Left(b, p) < 1 THEN Bad
  ELSE LET h == b[p] IN
    CASE h < 253 -> Got(h, p + 1)
      [] h = 253 -> IF Left(b, p) < 3 THEN Bad
                    ELSE LET n == b[p+1] + 256 * b[p+2]
                         IN IF n < 253 THEN Bad ELSE Got(n, p + 3)
      [] h = 254 -> IF Left(b, p) < 5 \/ b[p+4] >= 2 THEN Bad
                    ELSE LET n == b[p+1] + 256 * b[p+2] + 65536 * b[p+3] + 16777216 * b[p+4]
                         IN IF n < 65536 THEN Bad ELSE Got(n, p + 5)
      [] h = 255 -> Bad

PVarBytes(b, p) == LET l == PCompact(b, p)
                   IN IF ~l.ok THEN Bad ELSE PBytes(b, l.p, l.v)

(* n consecutive elements, each at least one byte long *)
PTimes(P(_, _), b, p, n) ==
  IF n > Left(b, p) THEN Bad
  ELSE FoldLeft(LAMBDA acc, i :
                  IF ~acc.ok THEN acc
                  ELSE LET e == P(b, acc.p)
                       IN IF ~e.ok THEN Bad ELSE Got(Append(acc.v, e.v), e.p),
                Got(<<>>, p), [i \in 1..n |-> i])

PVec(P(_, _), b, p) == LET l == PCompact(b, p)
                       IN IF ~l.ok THEN Bad ELSE PTimes(P, b, l.p, l.v)
=============================================================================
