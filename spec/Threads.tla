------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Threads that work on things of their own (or on immutable ones) under   *)
(* chains of their own, and what they share: the library, loaded by the    *)
(* first who needs it.  An operation is a few steps; anything may happen   *)
(* in other threads between two of them.                                   *)
(*                                                                         *)
(*   use: look for the library; load it if it is not there; make it known; *)
(*        put the arguments where the library finds them; call it          *)
(*   ask: read the chain; answer                                           *)
(*   select: choose the other chain                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

StepsOf(op) == CASE op = "use" -> << "look", "load", "publish", "fill", "call" >>
                 [] op = "ask" -> << "read", "answer" >>
                 [] op = "select" -> << "set" >>
Other(c) == IF c = "A" THEN "B" ELSE "A"

(* what a thread gets from its program when it is the only one *)
RECURSIVE AloneFrom(_, _, _, _)
AloneFrom(t, prog, i, chain) ==
  IF i > Len(prog) THEN << >>
  ELSE CASE prog[i] = "use" -> << << "value", t, i >> >> \o AloneFrom(t, prog, i + 1, chain)
         [] prog[i] = "ask" -> << << chain, t, i >> >> \o AloneFrom(t, prog, i + 1, chain)
         [] prog[i] = "select" -> << << "done", t, i >> >> \o AloneFrom(t, prog, i + 1, Other(chain))
Alone(t, prog, chain) == AloneFrom(t, prog, 1, chain)

(* the judgement: what was got is what would have been got alone *)
Undisturbed(got, alone) == got = alone
=============================================================================
