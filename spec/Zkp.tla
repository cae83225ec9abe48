-------------------------------- MODULE Zkp --------------------------------
(***************************************************************************)
(* Ideal confidential-assets cryptography: perfectly binding, transparent  *)
(* encodings of generators, commitments and proofs, the ones implemented   *)
(* by zkp/ideal_zkp.c.  Scalars are those of the real group order.         *)
(* Amounts are 8 bytes big-endian, factors 32 bytes big-endian.            *)
(***************************************************************************)
EXTENDS Bytes

Tag(s, parts) == Sha256(Chars(s) \o Cat(parts))
Point(prefix, h) == << prefix + (h[32] % 2), h[1] % 128 >> \o SubSeq(h, 2, 32)
Factor(x) == IsScalar(x) \/ x = Zeros(32)

GenOf(asset, abf)  == Point(10, Tag("ideal/gen", << asset, abf >>))
ComOf(gen, v, bf)  == Point(8, Tag("ideal/com", << gen, v, bf >>))
GenParses(b)       == Len(b) = 33 /\ b[1] \in {10, 11} /\ b[2] < 128
ComParses(b)       == Len(b) = 33 /\ b[1] \in {8, 9} /\ b[2] < 128

(* what a commitment contributes to the balance: v*abf + bf *)
Weight(v, abf, bf) == ScAdd(ScMul(v, abf), bf)
SumSc(ss)          == FoldLeft(LAMBDA a, b : ScAdd(a, b), Zeros(32), ss)

(* range proofs: the statement, the opening it hides and the side message *)
RpTag(head, com, gen, script) == Tag("ideal/rp", << head, com, gen, script >>)
RpOf(exp, bits, min, v, bf, msg, nonce, com, gen, script) ==
  LET head == << 82, 80, exp + 1, bits >> \o min \o v \o bf
              \o << Len(msg) \div 256, Len(msg) % 256 >> \o msg
              \o Tag("ideal/nc", << nonce >>)
  IN head \o RpTag(head, com, gen, script)
RpWF(p) == /\ Len(p) >= 118 /\ p[1] = 82 /\ p[2] = 80
           /\ Len(p) = 118 + 256 * p[53] + p[54]
RpMin(p) == SubSeq(p, 5, 12)
RpVal(p) == SubSeq(p, 13, 20)
RpBf(p)  == SubSeq(p, 21, 52)
RpMsg(p) == SubSeq(p, 55, Len(p) - 64)
RpNc(p)  == SubSeq(p, Len(p) - 63, Len(p) - 32)
(* the proof proves its statement about this commitment, generator, script *)
RpVerifies(p, com, gen, script) ==
  /\ RpWF(p)
  /\ SubSeq(p, Len(p) - 31, Len(p)) = RpTag(SubSeq(p, 1, Len(p) - 32), com, gen, script)
  /\ Factor(RpBf(p)) /\ com = ComOf(gen, RpVal(p), RpBf(p))
RpRewinds(p, nonce, com, gen, script) ==
  RpVerifies(p, com, gen, script) /\ RpNc(p) = Tag("ideal/nc", << nonce >>)

(* surjection proofs: the output's asset is one of the marked inputs' *)
SpMapLen(n)   == (n + 7) \div 8
SpOf(map, gens, outgen) ==
  LE(Len(gens), 2) \o map
  \o Tag("ideal/sp", << LE(Len(gens), 2), map >> \o gens \o << outgen >>)
SpMap(p, n)   == SubSeq(p, 3, 2 + SpMapLen(n))
Bit(map, i)   == (map[(i - 1) \div 8 + 1] \div (2 ^ ((i - 1) % 8))) % 2 = 1
SpVerifies(p, gens, outgen) ==
  /\ Len(p) = 34 + SpMapLen(Len(gens))
  /\ p = SpOf(SpMap(p, Len(gens)), gens, outgen)
=============================================================================
