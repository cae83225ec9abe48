------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session with the library for confidential transactions: what its      *)
(* caller must hand over, how long surjection proofs live, and what may be *)
(* told to the user when a call fails.  Function names are those of        *)
(* libsecp256k1-zkp without the prefix.                                    *)
(*                                                                         *)
(* A call is [f, ctx, ok, sz, ins, out, p]: the function, the context given *)
(* to it ("blind", "sign", "verify" or "none"), whether it succeeded,       *)
(* the sizes of the buffers and the numbers it was given (in the order of  *)
(* its arguments, without the context), the opaque objects it was given,   *)
(* the one it made, and the surjection proof it was about ("" if none).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Opaque == 64      \* generators and commitments as kept in memory
Compact == 33     \* the same, written out
Word == 32        \* keys, factors, asset ids, seeds

(* every buffer is as large as the library takes it to be *)
Fits(c) ==
  LET z == c.sz IN
  CASE c.f = "generator_parse"            -> z[1] >= Opaque /\ z[2] >= Compact
    [] c.f = "generator_generate"         -> z[1] >= Opaque /\ z[2] >= Word
    [] c.f = "generator_generate_blinded" -> z[1] >= Opaque /\ z[2] >= Word /\ z[3] >= Word
    [] c.f = "generator_serialize"        -> z[1] >= Compact /\ z[2] >= Opaque
    [] c.f = "pedersen_commit"            -> z[1] >= Opaque /\ z[2] >= Word /\ z[3] >= Opaque
    [] c.f = "pedersen_commitment_serialize" -> z[1] >= Compact /\ z[2] >= Opaque
    [] c.f = "pedersen_commitment_parse"  -> z[1] >= Opaque /\ z[2] >= Compact
       \* values, asset factors, factors, how many, how many of them inputs
    [] c.f = "pedersen_blind_generator_blind_sum" ->
         z[1] >= z[4] /\ z[2] >= z[4] /\ z[3] >= z[4] /\ z[5] < z[4] /\ z[5] >= 0
       \* proof, its size, commitment, factor, nonce, exponent, bits,
       \* message, its size, script, its size, generator
    [] c.f = "rangeproof_sign" ->
         /\ z[1] >= z[2] /\ z[3] >= Opaque /\ z[4] >= Word /\ z[5] >= Word
         /\ z[8] >= z[9] /\ z[10] >= z[11] /\ z[12] >= Opaque
       \* factor, message, its size, nonce, commitment, proof, its size,
       \* script, its size, generator
    [] c.f = "rangeproof_rewind" ->
         /\ z[1] >= Word /\ z[2] >= z[3] /\ z[4] >= Word /\ z[5] >= Opaque
         /\ z[6] >= z[7] /\ z[8] >= z[9] /\ z[10] >= Opaque
    [] c.f = "rangeproof_info" -> z[1] >= z[2]
       \* tags, how many, how many to use, tag, iterations, seed
    [] c.f = "surjectionproof_allocate_initialized" ->
         /\ z[1] >= Word * z[2] /\ z[3] <= z[2]
         /\ z[4] >= Word /\ z[6] >= Word
       \* generators, how many, generator, index, key of the input, of the output
    [] c.f = "surjectionproof_generate" ->
         /\ z[1] >= Opaque * z[2] /\ z[3] >= Opaque /\ z[4] \in 0..(z[2] - 1)
         /\ z[5] >= Word /\ z[6] >= Word
    [] c.f = "surjectionproof_verify" -> z[1] >= Opaque * z[2] /\ z[3] >= Opaque
    [] c.f = "surjectionproof_serialize" -> z[1] >= z[2]
    [] OTHER -> TRUE

MakesGen == {"generator_parse", "generator_generate", "generator_generate_blinded"}
MakesCom == {"pedersen_commit", "pedersen_commitment_parse"}
Allocate == "surjectionproof_allocate_initialized"
Destroy  == "surjectionproof_destroy"
NeedsFilled == {"surjectionproof_verify", "surjectionproof_serialized_size", "surjectionproof_serialize"}

(* opaque objects among the arguments: generators, or (for these) first a commitment *)
ComArgs(c) == CASE c.f = "pedersen_commitment_serialize" -> 1..Len(c.ins)
                [] c.f \in {"rangeproof_sign", "rangeproof_rewind"} -> {1}
                [] OTHER -> {}

Idle == [gens |-> {}, coms |-> {}, live |-> {}, dead |-> {}, filled |-> {}, failed |-> {}, unalloc |-> 0, bad |-> {}]
If(c, name) == IF c THEN {name} ELSE {}

(* only destroying takes no context; these make points, which takes one for signing *)
Signs == {"generator_generate_blinded", "pedersen_commit", "rangeproof_sign", "rangeproof_rewind", "surjectionproof_generate"}
Context(c) == c.f # Destroy => c.ctx # "none" /\ (c.f \in Signs => c.ctx # "verify")

Wrongs(s, c) ==
  If(~Context(c), "wrong-context") \cup
  If(~Fits(c), "buffer-too-small") \cup
  If(\E i \in 1..Len(c.ins) : c.ins[i] \notin (IF i \in ComArgs(c) THEN s.coms ELSE s.gens), "object-nobody-made") \cup
  If(c.p # "" /\ c.f # Allocate /\ c.p \in s.dead, IF c.f = Destroy THEN "surjection-proof-destroyed-twice"
                                                   ELSE "destroyed-surjection-proof-used") \cup
  If(c.p # "" /\ c.f # Allocate /\ c.p \notin s.dead \cup s.live, "surjection-proof-nobody-made") \cup
  If(c.f \in NeedsFilled /\ c.p \in s.live \ s.filled, "empty-surjection-proof-used")

Step(s, c) ==
  LET t == [s EXCEPT !.bad = @ \cup Wrongs(s, c)] IN
  IF c.f = Destroy
  THEN [t EXCEPT !.live = @ \ {c.p}, !.filled = @ \ {c.p}, !.dead = @ \cup {c.p}]
  ELSE IF ~c.ok
  THEN IF c.f = Allocate THEN [t EXCEPT !.unalloc = @ + 1] ELSE [t EXCEPT !.failed = @ \cup {c.f}]
  ELSE CASE c.f \in MakesGen -> [t EXCEPT !.gens = @ \cup {c.out}]
         [] c.f \in MakesCom -> [t EXCEPT !.coms = @ \cup {c.out}]
         [] c.f = Allocate   -> [t EXCEPT !.live = @ \cup {c.p}, !.dead = @ \ {c.p}]
         [] c.f = "surjectionproof_generate" -> [t EXCEPT !.filled = @ \cup {c.p}]
         [] OTHER -> t

RECURSIVE RunTo(_, _, _)
RunTo(s, cs, i) == IF i > Len(cs) THEN s ELSE RunTo(Step(s, cs[i]), cs, i + 1)
Run(s, cs) == RunTo(s, cs, 1)

(* nothing is left behind *)
Left(s) == If(s.live # {}, "surjection-proof-never-destroyed")
Contract(s) == s.bad \cup Left(s)

(* What may be told after the calls s went through.  No way to make a
   surjection proof is an answer, not a fault: it leaves an output without
   proofs, which only one who asks for it is told of as a success.          *)
MayTellSuccess(s, strict) == s.failed = {} /\ (s.unalloc = 0 \/ ~strict)
=============================================================================
