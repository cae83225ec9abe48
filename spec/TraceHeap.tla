----------------------------- MODULE TraceHeap -----------------------------
(***************************************************************************)
(* Recorded histories of building, converting, aliasing and modifying      *)
(* transactions and parts: after every step the outcome and what every     *)
(* name shows must be those of the object graph.                           *)
(***************************************************************************)
EXTENDS Heap, TraceKit

VARIABLES h, k, st

Steps(n) == Trace[n].steps
If(c, name) == IF c THEN {name} ELSE {}

Judge(n, j, s) ==
  LET e == Steps(n)[j] IN
  If(e.o.op \notin {"poke", "drop", "bad"} /\ s.out = "refused" /\ e.out = "ok", "immutable-object-modified") \cup
  If(e.o.op \in {"poke", "drop", "bad"} /\ e.out = "ok", "field-of-immutable-changed-or-deleted") \cup
  If(s.out = "ok" /\ e.out # "ok", "operation-failed") \cup
  UNION { If(e.views[r] # View(s.hp, s.roots[r]),
             IF e.o.op \in {"init", "new", "conv"} /\ r = Len(s.roots)
             THEN "contents-or-mutability-of-result"
             ELSE "object-changed-by-operation-on-another")
          : r \in 1..Len(s.roots) }

Init == /\ h \in 1..Len(Trace) /\ k = 0
        /\ st = [hp |-> <<>>, roots |-> <<>>, out |-> "ok"]
Next == /\ k < Len(Steps(h))
        /\ k' = k + 1
        /\ st' = Step(st, Steps(h)[k + 1].o)
        /\ UNCHANGED h
Conforms == k > 0 => Report(h, Judge(h, k, st))
=============================================================================
