------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* Results of blinding and unblinding: what one can be made of, and what   *)
(* is then seen of it.  An argument is a kind of value (see d_result.py).  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Classes == {"BlindingFailure", "UnblindingFailure", "BlindingSuccess", "UnblindingSuccess"}
Params(c) == CASE c = "BlindingSuccess" -> << "num", "bfs", "abfs" >>
               [] c = "UnblindingSuccess" -> << "asset", "amount", "bf", "abf" >>
               [] OTHER -> << "msg" >>
(* the kinds of value offered for a parameter, and those of them it takes *)
Offered(p) ==
  CASE p = "msg"   -> {"absent", "text", "blank", "long", "odd", "empty", "bytes", "none", "zero", "list", "error"}
    [] p = "num"   -> {"absent", "zero", "one", "two", "float", "digits", "none", "bytes"}
    [] p = "bfs"   -> {"absent", "none0", "one1", "two2", "tuple2", "bytes1", "null1", "mixed2", "text1", "zero"}
    [] p = "asset" -> {"absent", "asset", "uint", "bytes", "none", "conf"}
    [] p = "amount" -> {"absent", "zero", "one", "max", "above", "minus", "huge", "float", "digits", "none"}
    [] OTHER       -> {"absent", "uint", "asset", "bytes", "none", "text", "zero"}
Good(p) ==
  CASE p = "msg"   -> {"text", "blank", "long", "odd"}
    [] p = "num"   -> {"zero", "one", "two"}
    [] p = "bfs"   -> {"none0", "one1", "two2", "tuple2"}
    [] p = "asset" -> {"asset"}
    [] p = "amount" -> {"zero", "one", "max"}
    [] OTHER       -> {"uint", "asset"}        \* an asset id is a Uint256
(* the factors are offered as pairs of equal shape, or with the second one foreign *)
OfferedIn(c, p) == IF c = "BlindingSuccess" /\ p = "abfs" THEN Offered("bfs") ELSE Offered(p)
GoodIn(c, p)    == IF c = "BlindingSuccess" /\ p = "abfs" THEN Good("bfs") ELSE Good(p)

Made(c, a) == \A k \in 1..Len(Params(c)) : a[k] \in GoodIn(c, Params(c)[k])

Failure(c) == c \in {"BlindingFailure", "UnblindingFailure"}
(* what anybody sees of a result that was made *)
Seen(c, a) ==
  [ made |-> "T", class |-> c,
    ok |-> IF Failure(c) THEN "F" ELSE "T",
    error |-> IF Failure(c) THEN a[1] ELSE "empty",
    truth |-> "!TypeError", untruth |-> "!TypeError",
    failure |-> IF Failure(c) THEN "T" ELSE "F", success |-> IF Failure(c) THEN "F" ELSE "T",
    fields |-> IF Failure(c) THEN <<>> ELSE a,
    descriptor |-> IF c = "UnblindingSuccess" THEN a ELSE <<>>,
    setok |-> "!AttributeError", seterror |-> "!AttributeError" ]
Refused == [ made |-> "F" ]
=============================================================================
