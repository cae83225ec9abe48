----------------------------- MODULE SessionMC -----------------------------
(***************************************************************************)
(* A careful client of Session: blinds issued amounts and outputs, or      *)
(* unblinds, or looks at a proof, or writes out an asset, while one call   *)
(* (the n-th of a function) or all calls of a function fail, before or     *)
(* after doing their work.  TLC checks that it keeps to the contract and   *)
(* never tells of a success; each behaviour is carried out.                *)
(***************************************************************************)
EXTENDS Session, Json, TLC

CONSTANTS MaxIns, MaxOuts, Careless

Ops == {"blind", "unblind", "info", "commit"}
C(f, sz, ins, out, p) == [f |-> f, ctx |-> "blind", ok |-> TRUE, sz |-> sz, ins |-> ins, out |-> out, p |-> p]
N(i) == ToString(i)

(* what blinding takes: ins inputs, each with a new asset if iss *)
InCalls(w)  == [i \in 1..w.ins |-> C("generator_generate_blinded", <<64, 32, 32>>, <<>>, "g" \o N(i), "")]
IssTags(w)  == IF w.iss THEN << C("generator_generate", <<64, 32>>, <<>>, "ga", "") >> ELSE <<>>
Tags(w)     == [i \in 1..(w.ins + IF w.iss THEN 1 ELSE 0) |-> IF i <= w.ins THEN "g" \o N(i) ELSE "ga"]
Commit(o, gen)  == << C("generator_generate_blinded", <<64, 32, 32>>, <<>>, gen, ""),
                      C("generator_serialize", <<33, 64>>, << gen >>, "", ""),
                      C("pedersen_commit", <<64, 32, 64>>, << gen >>, "c" \o o, ""),
                      C("pedersen_commitment_serialize", <<33, 64>>, << "c" \o o >>, "", "") >>
Range(o, gen, n) == << C("rangeproof_sign", <<5134, 5134, 64, 32, 32, 0, 52, 64, 64, n, n, 64>>, << "c" \o o, gen >>, "", "") >>
IssCalls(w) == IF w.iss THEN Commit("a", "gb") \o Range("a", "gb", 0) ELSE <<>>
Surject(w, o, gen) ==
  LET p == "p" \o o n == Len(Tags(w)) IN
  << C(Allocate, << 32 * n, n, IF n < 3 THEN n ELSE 3, 32, 100, 32 >>, <<>>, "", p),
     C("surjectionproof_generate", << 64 * n, n, 64, 0, 32, 32 >>, Append(Tags(w), gen), "", p),
     C("surjectionproof_verify", << 64 * n, n, 64 >>, Append(Tags(w), gen), "", p),
     C("surjectionproof_serialized_size", <<>>, <<>>, "", p),
     C("surjectionproof_serialize", <<67, 67>>, <<>>, "", p),
     C(Destroy, <<>>, <<>>, "", p) >>
SumCall(w, o) == IF o < w.outs THEN <<>>
                 ELSE LET k == w.ins + w.outs + IF w.iss THEN 1 ELSE 0 IN
                      << C("pedersen_blind_generator_blind_sum", << k, k, k, k, k - w.outs >>, <<>>, "", "") >>
RECURSIVE OutCalls(_, _)
OutCalls(w, o) == IF o > w.outs THEN <<>>
  ELSE SumCall(w, o) \o Commit(N(o), "go" \o N(o)) \o Range(N(o), "go" \o N(o), 22) \o Surject(w, N(o), "go" \o N(o)) \o OutCalls(w, o + 1)
Script(w) ==
  CASE w.op = "blind" -> InCalls(w) \o IssTags(w) \o IssCalls(w) \o OutCalls(w, 1)
    [] w.op = "unblind" ->
         << C("generator_parse", <<64, 33>>, <<>>, "g", ""), C("pedersen_commitment_parse", <<64, 33>>, <<>>, "c", ""),
            C("rangeproof_rewind", <<32, 4096, 64, 32, 64, 182, 182, 22, 22, 64>>, << "c", "g" >>, "", ""),
            C("generator_generate_blinded", <<64, 32, 32>>, <<>>, "h", ""),
            C("generator_serialize", <<33, 64>>, << "g" >>, "", ""), C("generator_serialize", <<33, 64>>, << "h" >>, "", "") >>
    [] w.op = "info" -> << C("rangeproof_info", <<182, 182>>, <<>>, "", "") >>
    [] w.op = "commit" -> << C("generator_generate", <<64, 32>>, <<>>, "g", ""), C("generator_serialize", <<33, 64>>, << "g" >>, "", "") >>

Works == {w \in [op : Ops, ins : 1..MaxIns, iss : BOOLEAN, outs : 1..MaxOuts, strict : BOOLEAN] :
            w.op # "blind" => w.ins = 1 /\ ~w.iss /\ w.outs = 1 /\ w.strict}
Calls(w, f) == Cardinality({i \in 1..Len(Script(w)) : Script(w)[i].f = f})
CanFail == {"generator_parse", "generator_generate", "generator_generate_blinded", "generator_serialize", "pedersen_commit",
            "pedersen_commitment_serialize", "pedersen_commitment_parse", "pedersen_blind_generator_blind_sum",
            "rangeproof_sign", "rangeproof_rewind", "rangeproof_info", "surjectionproof_generate", "surjectionproof_verify",
            "surjectionproof_serialize", Allocate}
(* n = 0: every call fails.  late: the work is done, but failure reported *)
Faults(w) == {x \in [f : {"-"} \cup CanFail, n : 0..(2 * MaxOuts + MaxIns + 4), late : BOOLEAN] :
                /\ x.f = "-" => x.n = 1 /\ ~x.late
                /\ x.f # "-" => Calls(w, x.f) > 0 /\ x.n <= Calls(w, x.f)
                /\ x.f = Allocate => ~x.late}

VARIABLES w, flt, pc, s, made, told
vars == << w, flt, pc, s, made, told >>
Init == /\ w \in Works /\ flt \in Faults(w)
        /\ pc = 1 /\ s = Idle /\ made = 0 /\ told = ""
Now == Script(w)[pc]
Count(i, f) == Cardinality({j \in 1..i : Script(w)[j].f = f})
Hit(c) == c.f = flt.f /\ (flt.n = 0 \/ Count(pc, c.f) = flt.n)
Total == w.outs + IF w.iss THEN 1 ELSE 0
(* where the next output begins *)
AfterProof == CHOOSE j \in pc..Len(Script(w)) : Script(w)[j].f = Destroy /\ \A k \in pc..(j - 1) : Script(w)[k].f # Destroy
Go == /\ told = "" /\ pc <= Len(Script(w))
      /\ IF ~Hit(Now)
         THEN /\ s' = Step(s, Now) /\ pc' = pc + 1
              /\ made' = IF Now.f = "surjectionproof_serialize" \/ (Now.f = "rangeproof_sign" /\ Now.ins[2] = "gb") THEN made + 1 ELSE made
              /\ told' = ""
         ELSE IF Now.f = Allocate
         THEN s' = Step(s, [Now EXCEPT !.ok = FALSE]) /\ pc' = AfterProof + 1 /\ made' = made /\ told' = ""
         ELSE LET t == Step(s, [Now EXCEPT !.ok = FALSE])
                  d == C(Destroy, <<>>, <<>>, "", Now.p)
              IN /\ s' = IF Now.p # "" /\ Careless # "leak" THEN Step(t, d) ELSE t
                 /\ pc' = pc + 1 /\ made' = made
                 /\ told' = IF Careless = "swallow" THEN "" ELSE "fail"
      /\ UNCHANGED << w, flt >>
Tell == /\ told = "" /\ pc > Len(Script(w))
        /\ told' = IF w.op = "blind" /\ w.strict /\ made < Total THEN "fail" ELSE "ok"
        /\ UNCHANGED << w, flt, pc, s, made >>
Next == Go \/ Tell

KeepsContract == s.bad = {} /\ (told # "" => Left(s) = {})
TellsTruth    == told = "ok" => MayTellSuccess(s, w.strict)
NoFaultNoFail == told = "fail" => s.failed # {} \/ s.unalloc > 0
Emit == told # "" => PrintT("@C " \o ToJson([op |-> w.op, ins |-> w.ins, iss |-> w.iss, outs |-> w.outs, strict |-> w.strict,
                                             f |-> flt.f, n |-> flt.n, late |-> flt.late, ok |-> told = "ok", made |-> made]))
=============================================================================
