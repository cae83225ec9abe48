------------------------------ MODULE ResultsMC ------------------------------
(***************************************************************************)
(* A result is asked for with any arguments, given by position or by name; *)
(* if it is made it is looked at, copied and handed on, and the next user  *)
(* looks as well.                                                          *)
(***************************************************************************)
EXTENDS Results, TLC, Json

CONSTANTS MaxHops

VARIABLES cls, args, named, state, hops

Tuples(c) == { a \in [1..Len(Params(c)) -> UNION { OfferedIn(c, p) : p \in {Params(c)[k] : k \in 1..Len(Params(c))} }] :
                 \A k \in 1..Len(a) : a[k] \in OfferedIn(c, Params(c)[k]) }
(* at most two arguments are odd: the others are fine *)
FewOdd(c, a) == \A i, j, k \in 1..Len(a) :
                  (i < j /\ j < k) => \E x \in {i, j, k} : a[x] \in GoodIn(c, Params(c)[x])

Init == /\ cls \in Classes
        /\ args \in { a \in Tuples(cls) : FewOdd(cls, a) }
        /\ named \in BOOLEAN
        /\ state = "asked" /\ hops = <<>>
Make == /\ state = "asked"
        /\ state' = IF Made(cls, args) THEN "made" ELSE "refused"
        /\ UNCHANGED << cls, args, named, hops >>
Hand == /\ state = "made" /\ Len(hops) < MaxHops
        /\ \E h \in {"copy", "deepcopy", "pickle", "look"} : hops' = Append(hops, h)
        /\ UNCHANGED << cls, args, named, state >>
Next == Make \/ Hand

See == IF state = "made" THEN Seen(cls, args) ELSE Refused
(* a result says exactly one thing, and it cannot be taken for its truth value *)
OneThing == state = "made" =>
  /\ (See.ok = "T") = (See.error = "empty")
  /\ (See.ok = "T") = (See.success = "T") /\ (See.success = "T") # (See.failure = "T")
  /\ See.truth = "!TypeError" /\ See.untruth = "!TypeError"
Typed == state = "made" =>
  \A k \in 1..Len(args) : args[k] \notin {"absent", "none", "bytes", "float", "digits", "empty"}
Emit == state # "asked" =>
  PrintT("@C " \o ToJson([cls |-> cls, args |-> args, named |-> named, hops |-> hops, made |-> state = "made",
                          see |-> IF state = "made" THEN Seen(cls, args) ELSE [made |-> "F"]]))
=============================================================================
