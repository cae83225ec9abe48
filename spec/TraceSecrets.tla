---------------------------- MODULE TraceSecrets ----------------------------
(* Recorded series of blindings (and of their random draws) judged against
   Secrets.  A position tells where the recorder found the secret. *)
EXTENDS Secrets, TraceKit

VARIABLE pos
RECURSIVE AllOf(_, _, _, _)
(* q: << << what, value, position >>, ... >> *)
AllOf(s, src, q, i) == IF i > Len(q) THEN s
                       ELSE AllOf(Use(s, src, q[i][1], q[i][2], q[i][3]), src, q, i + 1)

OutSecrets(o, last) ==
  LET rp == Hex2B(o.rp) IN
  IF ~RpWF(rp) \/ Len(RpMsg(rp)) # 64 THEN << << "range-proof", << >>, 0 >> >>
  ELSE (IF o.i = last THEN << >> ELSE << << "factor", RpBf(rp), o.bf >> >>)
       \o << << "asset-factor", SubSeq(RpMsg(rp), 33, 64), o.abf >>,
             << "ephemeral-key", Hex2B(o.nonce), o.eph >> >>
IssSecrets(o) == LET rp == Hex2B(o.rp) IN
  IF ~RpWF(rp) THEN << << "range-proof", << >>, 0 >> >> ELSE << << "factor", RpBf(rp), o.bf >> >>
SecretsOf(c) == Cat([i \in 1..Len(c.iss) |-> IssSecrets(c.iss[i])])
                \o Cat([i \in 1..Len(c.outs) |-> OutSecrets(c.outs[i], c.last)])
                \o [i \in 1..Len(c.seeds) |-> << "seed", Hex2B(c.seeds[i].v), c.seeds[i].at >>]

Also(s, name) == [s EXCEPT !.bad = @ \cup {name}]
Call(s, c) ==
  LET t == AllOf(Give(s, c.src, Hex2B(c.drawn)), c.src, SecretsOf(c), 1)
      u == IF c.kind = "ok" /\ Len(c.seeds) < Len(c.outs) THEN Also(t, "no-seed-for-output") ELSE t
      v == IF c.kind # "ok" /\ c.granted /\ ~c.broken THEN Also(u, "valid-request-refused") ELSE u
  IN IF c.same = "F" THEN Also(v, "outcome-depends-on-more-than-request-and-draws") ELSE v

RECURSIVE Calls(_, _, _)
Calls(s, q, i) == IF i > Len(q) THEN s ELSE Calls(Call(s, q[i]), q, i + 1)
Judge(e) == Calls(Blank, e.calls, 1).bad

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
