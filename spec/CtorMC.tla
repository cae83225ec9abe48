------------------------------- MODULE CtorMC -------------------------------
(***************************************************************************)
(* Every class with up to Dev of its arguments given.  What is made holds  *)
(* its parts: TLC checks that good parts given together are taken exactly  *)
(* when each of them is, and that what is held tells the parts apart.      *)
(* Every combination is replayed.                                          *)
(***************************************************************************)
EXTENDS Ctor, TLC, Json, FiniteSets

CONSTANTS Dev

Others == {"none", "str", "true", "uint256", "assetid", "script", "bscript", "stack", "value",
           "commitment", "asset", "nonce", "issuance", "boutpoint", "btxin", "btxout", "binwit",
           "bwit", "btx"}
          \cup Families \cup { "m" \o f : f \in Families }
Els    == {"txin", "mtxin", "txout", "mtxout", "inwit", "minwit", "outwit", "moutwit", "int5"}
Lists  == { f \o ":" \o e : f \in Forms, e \in Els \cup {""} }
All    == Others \cup Lists \cup ByteNames \cup IntNames
(* the second and later given arguments *)
Good(f, mut) == { k \in All : Verdict(f, k, mut) = "yes" } \ {"bytes1", "bytes8", "bytes10", "bytes31",
     "array1", "array8", "array9", "array10", "array31", "array34", "array80", "bytes34", "int0", "int4294967294", "int2147483648"}
Second(f) == Good(f, FALSE) \cup {"str", "none"}

VARIABLES cls, args
vars == << cls, args >>
Given == { i \in 1..Len(args) : args[i] # "omit" }

Init == cls \in Classes /\ args = [i \in 1..Len(FieldsOf[cls]) |-> "omit"]
Next == /\ Cardinality(Given) < Dev
        /\ \E i \in (1..Len(args)) \ Given :
             \E k \in IF Given = {} THEN All ELSE Second(FieldsOf[cls][i]) :
               args' = [args EXCEPT ![i] = k]
        /\ UNCHANGED cls

TakenIffEach == \A mut \in {FALSE, TRUE} :
  Res(cls, args, mut) = "made" =>
    \A i \in 1..Len(args) : Verdict(FieldsOf[cls][i], args[i], mut) = "yes"
(* leaving an argument out is the same as giving its default *)
Out(mut) ==
  LET r == Res(cls, args, mut) IN
  [res |-> r, shown |-> IF r = "made" THEN Held(cls, args, mut) ELSE <<>>]
FormsAgree ==
  cls \in {"wit", "tx"} /\ Res(cls, args, FALSE) = "made" =>
    \A i \in 1..2 : args[i] \in { "list:" \o e : e \in Els } =>
      \A f \in {"tuple", "iter"} :
        \E e \in Els : args[i] = "list:" \o e
          /\ Held(cls, [args EXCEPT ![i] = f \o ":" \o e], FALSE) = Held(cls, args, FALSE)
Show == PrintT("@C " \o ToJson([cls |-> cls, args |-> args, immutable |-> Out(FALSE), mutable |-> Out(TRUE)]))
=============================================================================
