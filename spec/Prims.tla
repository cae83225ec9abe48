------------------------------- MODULE Prims -------------------------------
(***************************************************************************)
(* Primitives the specification takes as given: hash functions, the curve, *)
(* scalar arithmetic modulo the group order, and conversions between the   *)
(* text of a recorded trace and sequences of bytes.  TLC evaluates them by *)
(* the Java overrides in java/Prims.java, which share no code with the     *)
(* implementation under test.  A byte string is a sequence of 0..255.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

(* text <-> bytes *)
Hex2B(s)        == CHOOSE b \in Seq(Byte) : TRUE   \* bytes of a lower-case hex string
B2Hex(b)        == CHOOSE s \in STRING : TRUE      \* its inverse
IsHex(s)        == CHOOSE x \in BOOLEAN : TRUE     \* is s a string of hex byte pairs
Chars(s)        == CHOOSE c \in Seq(Nat) : TRUE    \* code points of a string
FromChars(c)    == CHOOSE s \in STRING : TRUE
Cat(ss)         == CHOOSE s \in Seq(Byte) : TRUE   \* concatenation of a sequence of sequences

(* hashes *)
Sha256(b)         == CHOOSE h \in Seq(Byte) : Len(h) = 32
Sha256Midstate(b) == CHOOSE h \in Seq(Byte) : Len(h) = 32   \* one compression, no padding
HmacSha256(k, m)  == CHOOSE h \in Seq(Byte) : Len(h) = 32

(* scalars modulo the secp256k1 group order, 32 bytes big-endian *)
ScAdd(a, b)    == CHOOSE h \in Seq(Byte) : Len(h) = 32
ScSub(a, b)    == CHOOSE h \in Seq(Byte) : Len(h) = 32
ScMul(a, b)    == CHOOSE h \in Seq(Byte) : Len(h) = 32
IsScalar(a)    == CHOOSE x \in BOOLEAN : TRUE       \* 0 < a < group order
NumLT(a, b)    == CHOOSE x \in BOOLEAN : TRUE       \* big-endian comparison
NumAdd(a, b)   == CHOOSE h \in Seq(Byte) : TRUE     \* big-endian addition, longer width

(* the curve *)
IsPoint(b)           == CHOOSE x \in BOOLEAN : TRUE
PubOf(k)             == CHOOSE p \in Seq(Byte) : TRUE  \* compressed public key, <<>> if invalid
Ecdh(k, p)           == CHOOSE h \in Seq(Byte) : TRUE  \* SHA256(compressed k*p)
XOnlyTweakAdd(p, t)  == CHOOSE q \in Seq(Byte) : TRUE  \* <<parity>> \o x-only key

Hash256(b) == Sha256(Sha256(b))
=============================================================================
