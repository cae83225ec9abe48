----------------------------- MODULE SecretsMC -----------------------------
(***************************************************************************)
(* Series of blindings, in one process or in children it forked, with the  *)
(* system's randomness or a source of their own (a new one or the same     *)
(* again), of the same request or another, to the same recipient or others,*)
(* possibly with a source that gives no more than so many pieces.  TLC     *)
(* checks that a blinder which takes a new piece for each secret never     *)
(* gives one out twice and succeeds just when it gets enough of them; each *)
(* series is carried out.  Careless: "" or a habit that is wrong.          *)
(***************************************************************************)
EXTENDS Secrets, Json

CONSTANTS MaxCalls, MaxOuts, Fails, Careless

Shapes == [iss : 0..1, outs : 1..MaxOuts]
Works  == [shape : Shapes, src : {"os", "own", "again"}, to : {"same", "new"},
           child : BOOLEAN, fail : Fails]
(* how much a source may give: 0 nothing, 1 half, 2 all but one, 3 enough *)
Gives(w) == LET n == Needs(w.shape.iss, w.shape.outs) IN
  CASE w.fail = 0 -> 0 [] w.fail = 1 -> n \div 2 [] w.fail = 2 -> n - 1 [] w.fail = 3 -> 1000

VARIABLES done, work, left, s, pc, taken, pool
vars == << done, work, left, s, pc, taken, pool >>

(* the content of a source is not looked at here: a piece is its number *)
SrcOf(i, w) == CASE w.src = "os" -> "os" [] w.src = "again" -> "own" \o ToString(i - 1) [] w.src = "own" -> "own" \o ToString(i)
Numbers == [i \in 1..Width |-> i]

Init == /\ work \in Works /\ work.src # "again"
        /\ done = << >> /\ left = Gives(work) /\ s = Blank /\ pc = 1 /\ taken = 0 /\ pool = {}
Steps == NeedsOf(work.shape.iss, work.shape.outs)
Src   == SrcOf(Len(done), work)
Busy  == pc > 0 /\ pc <= Len(Steps)
(* one secret *)
New(t)  == Give(t, Src, Numbers)
At(t)   == Len(DrawnOf(t, Src)) + 1
Reused  == Careless = "recipient" /\ Steps[pc] = "ephemeral-key" /\ work.to = "same" /\ pool # {}
Twice   == Careless = "factors" /\ Steps[pc] = "asset-factor" /\ Steps[pc - 1] = "factor"
Take == /\ Busy /\ Steps[pc] # "determined"
        /\ IF Twice
           THEN s' = Use(s, Src, "seed", Numbers, At(s) - Width) /\ UNCHANGED << left, pool >>
           ELSE IF Reused
           THEN s' = Use(s, (CHOOSE p \in pool : TRUE)[1], "seed", Numbers, (CHOOSE p \in pool : TRUE)[2]) /\ UNCHANGED << left, pool >>
           ELSE /\ left > 0 /\ left' = left - 1
                /\ s' = Use(New(s), Src, "seed", Numbers, At(s))
                /\ pool' = IF Steps[pc] = "ephemeral-key" THEN pool \cup {<< Src, At(s) >>} ELSE pool
        /\ pc' = pc + 1 /\ taken' = taken + 1 /\ UNCHANGED << done, work >>
Balance == Busy /\ Steps[pc] = "determined" /\ pc' = pc + 1 /\ UNCHANGED << done, work, left, s, taken, pool >>
(* the source gives no more *)
Stop == Busy /\ Steps[pc] # "determined" /\ left = 0 /\ pc' = 0 /\ UNCHANGED << done, work, left, s, taken, pool >>
Ended == ~Busy
Told  == [shape |-> work.shape, src |-> work.src, to |-> work.to, child |-> work.child, gives |-> Gives(work),
          ok |-> pc > 0, fresh |-> taken]
(* what comes next; the same source again only if it has not run dry and is not a copy in a child *)
Again == Ended /\ Len(done) + 1 < MaxCalls
         /\ \E w \in Works :
              /\ w.src = "again" => work.src = "own" /\ work.fail = 3 /\ ~w.child /\ ~work.child
              /\ work' = w /\ left' = Gives(w)
         /\ done' = Append(done, Told) /\ pc' = 1 /\ taken' = 0 /\ UNCHANGED << s, pool >>
Next == Take \/ Balance \/ Stop \/ Again

NeverTwice == s.bad = {}
EnoughIsEnough == Ended => (pc > 0 <=> Gives(work) >= Needs(work.shape.iss, work.shape.outs))
AllMade == Ended /\ pc > 0 => taken = Needs(work.shape.iss, work.shape.outs)
Emit == Ended /\ Len(done) + 1 = MaxCalls => PrintT("@C " \o ToJson(Append(done, Told)))
=============================================================================
