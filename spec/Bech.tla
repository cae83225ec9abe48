-------------------------------- MODULE Bech --------------------------------
(***************************************************************************)
(* Bech32 / Bech32m (6 checksum characters) and Blech32 / Blech32m (12).   *)
(* A text is a sequence of character codes.  A Blech32 checksum state has  *)
(* 60 bits; it is kept as two 30-bit halves << hi, lo >>.                  *)
(***************************************************************************)
EXTENDS Bytes, Bitwise

Charset == Chars("qpzry9x8gf2tvdw0s3jn54khce6mua7l")
ValTab  == [c \in 0..127 |-> IF \E i \in 1..32 : Charset[i] = c
                             THEN (CHOOSE i \in 1..32 : Charset[i] = c) - 1 ELSE -1]
CharVal(c) == IF c \in 0..127 THEN ValTab[c] ELSE -1

P25 == 33554432
Bit(t, i) == (t \div (2 ^ i)) % 2

BlechGen == << <<32852974, 604756102>>, <<24786684, 436442380>>, <<7399665, 872884760>>,
               <<14775755, 974016825>>, <<29511574, 638092891>> >>
BechGen  == << 996825010, 642813549, 513874426, 1027748829, 705979059 >>
(* the generators combined for each value of the five top bits *)
XorSel(f, t) == FoldLeft(LAMBDA acc, i : IF Bit(t, i - 1) = 1 THEN acc ^^ f[i] ELSE acc,
                         0, <<1, 2, 3, 4, 5>>)
BlechHi == [t \in 0..31 |-> XorSel([i \in 1..5 |-> BlechGen[i][1]], t)]
BlechLo == [t \in 0..31 |-> XorSel([i \in 1..5 |-> BlechGen[i][2]], t)]
BechTab == [t \in 0..31 |-> XorSel(BechGen, t)]

BlechStep(c, v) ==
  LET top == c[1] \div P25 IN
  << (((c[1] % P25) * 32) + (c[2] \div P25)) ^^ BlechHi[top],
     (((c[2] % P25) * 32) ^^ v) ^^ BlechLo[top] >>
BechStep(c, v) == << 0, (((c[2] % P25) * 32) ^^ v) ^^ BechTab[c[2] \div P25] >>

(* the two codes: checksum length, maximal length, step, final constants *)
Sums(code)   == IF code = "blech" THEN 12 ELSE 6
MaxLen(code) == IF code = "blech" THEN 1000 ELSE 90
Polymod(code, vs) == FoldLeft(LAMBDA c, v : IF code = "blech" THEN BlechStep(c, v) ELSE BechStep(c, v),
                              <<0, 1>>, vs)
Plain(code) == <<0, 1>>                                      \* version 0
Modif(code) == IF code = "blech" THEN <<290872488, 860944289>> ELSE <<0, 734539939>>
FinalFor(code, ver) == IF ver = 0 THEN Plain(code) ELSE Modif(code)

HrpExpand(h) == [i \in 1..Len(h) |-> h[i] \div 32] \o <<0>> \o [i \in 1..Len(h) |-> h[i] % 32]

Digit(half, k) == (half \div (32 ^ (5 - k))) % 32            \* k in 0..5, most significant first
Checksum(code, hrp, data, final) ==
  LET p  == Polymod(code, HrpExpand(hrp) \o data \o Zeros(Sums(code)))
      hi == p[1] ^^ final[1]
      lo == p[2] ^^ final[2]
  IN IF code = "blech" THEN [k \in 1..12 |-> IF k <= 6 THEN Digit(hi, k - 1) ELSE Digit(lo, k - 7)]
     ELSE [k \in 1..6 |-> Digit(lo, k - 1)]

(* regrouping bits *)
BitsOf(b, w) == Cat([i \in 1..Len(b) |-> [j \in 1..w |-> Bit(b[i], w - j)]])
Group(bits, w, n) == [i \in 1..n |-> FoldLeft(LAMBDA acc, j : 2 * acc + bits[(i - 1) * w + j],
                                              0, [j \in 1..w |-> j])]
To5(b) == LET bits == BitsOf(b, 8)
              n    == (Len(bits) + 4) \div 5
          IN Group(bits \o Zeros(5 * n - Len(bits)), 5, n)
(* the whole bytes in a sequence of 5-bit values; leftover bits are dropped *)
From5(d)   == Group(BitsOf(d, 5), 8, (5 * Len(d)) \div 8)
PadBits(d) == LET bits == BitsOf(d, 5)
              IN SubSeq(bits, 8 * ((5 * Len(d)) \div 8) + 1, Len(bits))

Text(hrp, d) == hrp \o <<49>> \o [i \in 1..Len(d) |-> Charset[d[i] + 1]]
TextOf(code, hrp, data, final) == Text(hrp, data \o Checksum(code, hrp, data, final))

Extra(code) == IF code = "blech" THEN 33 ELSE 0              \* room for a blinding key
GoodProgram(code, ver, prog) ==
  /\ ver \in 0..16
  /\ Len(prog) \in 2..(40 + Extra(code))
  /\ ver = 0 => Len(prog) \in {20 + Extra(code), 32 + Extra(code)}
(* not every program fits after a very long prefix *)
Fits(code, hrp, prog) ==
  Len(hrp) + 2 + (8 * Len(prog) + 4) \div 5 + Sums(code) <= MaxLen(code)
(* the canonical text; defined when GoodProgram holds *)
Encoding(code, hrp, ver, prog) ==
  TextOf(code, hrp, <<ver>> \o To5(prog), FinalFor(code, ver))

(* -------------------------------------------------------------- decoding *)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerText(s) == [i \in 1..Len(s) |-> Lower(s[i])]
MixedCase(s) == (\E i \in 1..Len(s) : s[i] \in 65..90) /\ (\E i \in 1..Len(s) : s[i] \in 97..122)

NoText == [ok |-> FALSE, ver |-> 0, prog |-> <<>>]

(* Acceptance as the guarantee states it: s is the canonical text, in one
   case, of the version and the whole bytes that can be read off it. *)
Decode(code, hrp, s0) ==
  LET s == LowerText(s0)
      h == Len(hrp)
      n == Len(s)
  IN IF \/ n < h + 2 + Sums(code) \/ n > MaxLen(code) \/ MixedCase(s0)
        \/ SubSeq(s, 1, h) # hrp \/ s[h + 1] # 49
        \/ \E i \in (h + 2)..n : CharVal(s[i]) = -1
     THEN NoText
     ELSE LET ver  == CharVal(s[h + 2])
              d    == [i \in 1..(n - h - 2 - Sums(code)) |-> CharVal(s[h + 2 + i])]
              prog == From5(d)
          IN IF GoodProgram(code, ver, prog) /\ Encoding(code, hrp, ver, prog) = s
             THEN [ok |-> TRUE, ver |-> ver, prog |-> prog] ELSE NoText

(* Acceptance as the reference decoder does it, by the remainder. *)
DecodeByRemainder(code, hrp, s0) ==
  LET s == LowerText(s0)
      h == Len(hrp)
      n == Len(s)
  IN IF \/ n < h + 2 + Sums(code) \/ n > MaxLen(code) \/ MixedCase(s0)
        \/ SubSeq(s, 1, h) # hrp \/ s[h + 1] # 49
        \/ \E i \in (h + 2)..n : CharVal(s[i]) = -1
     THEN NoText
     ELSE LET all == [i \in 1..(n - h - 1) |-> CharVal(s[h + 1 + i])]
              ver == all[1]
              d   == SubSeq(all, 2, Len(all) - Sums(code))
              pad == PadBits(d)
              prog == From5(d)
          IN IF /\ Polymod(code, HrpExpand(hrp) \o all) = FinalFor(code, ver)
                /\ Len(pad) < 5 /\ \A i \in 1..Len(pad) : pad[i] = 0
                /\ GoodProgram(code, ver, prog)
             THEN [ok |-> TRUE, ver |-> ver, prog |-> prog] ELSE NoText
=============================================================================
