------------------------------ MODULE SplitMC ------------------------------
(***************************************************************************)
(* Several parties blind their outputs of one transaction in turn.  Each   *)
(* knows only its own inputs.  Scalars are integers modulo P; an input or  *)
(* output is represented by its weight v*abf + bf, free for inputs and for *)
(* all outputs but the last one a party blinds, which its call determines. *)
(*                                                                         *)
(* TLC checks over all configurations, orders and scalars that the sealed  *)
(* transaction balances when every party with hidden inputs hid an output, *)
(* and prints the configurations with the predicted outcome of every call; *)
(* they are replayed into the implementation.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS P, Parties, Holdings, MaxKeyed

Z == 0..P - 1
\* hidden and explicit inputs, outputs to hide
Configs == { c \in [h : Holdings, e : 0..1, k : 0..MaxKeyed] : c.h + c.e \in 1..2 }

VARIABLES cfg, win, todo, order, wout, res
vars == << cfg, win, todo, order, wout, res >>

Sum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE (F[i - 1] + s[i]) % P IN F[Len(s)]
Seqs(n) == [1..n -> Z]

Init == /\ cfg \in [Parties -> Configs]
        /\ win \in [Parties -> UNION {Seqs(n) : n \in Holdings}]
        /\ \A p \in Parties : Len(win[p]) = cfg[p].h
        /\ todo = Parties /\ order = <<>>
        /\ wout = [p \in Parties |-> <<>>] /\ res = [p \in Parties |-> "none"]

\* one call of the library by party p
Fails(p) == cfg[p].k = 1 /\ cfg[p].h = 0
Call(p) ==
  /\ p \in todo /\ todo' = todo \ {p} /\ order' = Append(order, p)
  /\ IF cfg[p].k = 0 \/ Fails(p)
     THEN wout' = wout /\ res' = [res EXCEPT ![p] = IF cfg[p].k = 0 THEN "empty" ELSE "fail"]
     ELSE /\ res' = [res EXCEPT ![p] = "ok"]
          /\ \E free \in Seqs(cfg[p].k - 1) :
               wout' = [wout EXCEPT ![p] = Append(free, (Sum(win[p]) + P - Sum(free)) % P)]
  /\ UNCHANGED << cfg, win >>
Next == \E p \in Parties : Call(p)

Done     == todo = {}
Total(f) == LET q == CHOOSE q \in [1..Cardinality(Parties) -> Parties] : \A x \in Parties : \E i \in DOMAIN q : q[i] = x
            IN Sum([i \in DOMAIN q |-> Sum(f[q[i]])])
Balanced == Total(win) = Total(wout)
\* everybody who hides something on the way in hides something on the way out
Complete == \A p \in Parties : cfg[p].h > 0 => cfg[p].k > 0

Composes   == Done /\ Complete => Balanced
\* after any number of calls the rest is exactly the inputs of the others
Running    == \A p \in Parties : res[p] = "ok" => Sum(win[p]) = Sum(wout[p])
OthersKept == [][\A p \in Parties : (\A q \in todo' : q # p) /\ p \notin todo => wout'[p] = wout[p]]_vars
Emit == Done => PrintT("@C " \o ToJson(
  [cfg |-> cfg, order |-> order, res |-> res, complete |-> Complete]))
=============================================================================
