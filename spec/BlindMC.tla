------------------------------ MODULE BlindMC ------------------------------
(***************************************************************************)
(* Every small blinding request: up to MaxIn inputs (own and blinded, own  *)
(* and explicit, somebody else's), issuances of every form with keys for   *)
(* each amount or not, up to MaxOut outputs of every kind and asset.       *)
(* TLC checks what a blinding must guarantee on all of them and prints the *)
(* requests with the predicted outcome; all are replayed.                  *)
(***************************************************************************)
EXTENDS Blind, TLC, Json

CONSTANTS MaxIn, MaxOut, IssKinds, OutAssets, OutKinds, Stricts

InKinds == {"bl", "ex", "fo"}
NoIss   == [form |-> "none", ak |-> FALSE, tk |-> FALSE]
IssAll  == { NoIss } \cup
           { [form |-> f, ak |-> a, tk |-> t] : f \in {"A", "R"}, a \in BOOLEAN, t \in {FALSE} } \cup
           { [form |-> "T", ak |-> FALSE, tk |-> t] : t \in BOOLEAN } \cup
           { [form |-> "AT", ak |-> a, tk |-> t] : a \in BOOLEAN, t \in BOOLEAN } \cup
           \* not granted: a key without its amount
           { [form |-> "none", ak |-> TRUE, tk |-> FALSE], [form |-> "none", ak |-> FALSE, tk |-> TRUE],
             [form |-> "A", ak |-> FALSE, tk |-> TRUE], [form |-> "T", ak |-> TRUE, tk |-> FALSE],
             [form |-> "R", ak |-> TRUE, tk |-> TRUE] }
Isss    == { x \in IssAll : x.form \in IssKinds }
Ins     == [k : InKinds, iss : Isss]
Outs    == [a : OutAssets, k : OutKinds]

VARIABLES ins, outs, strict, done
vars == << ins, outs, strict, done >>

(* ------------------------------------------ the concrete request meant *)
A32(x)  == <<x>> \o Zeros(31)
Amt(x)  == Zeros(7) \o <<x>>
Pub     == PubOf(A32(9))
Sk(i, x) == IF x THEN A32(20 + i) ELSE <<>>
InTx(i) ==
  LET f == ins[i].iss.form IN
  [hash |-> A32(i), n |-> LE(0, 4), seq |-> Ones32, script |-> <<>>, pegin |-> FALSE,
   iss |-> [nonce |-> IF f = "R" THEN A32(60 + i) ELSE Zeros(32), entropy |-> A32(40 + i),
            amt |-> IF f \in {"A", "AT", "R"} THEN <<1>> \o Amt(7) ELSE <<>>,
            keys |-> IF f \in {"T", "AT"} THEN <<1>> \o Amt(3) ELSE <<>>]]
Desc(i) ==
  IF ins[i].k = "fo" THEN [amt |-> Zeros(8), neg |-> FALSE, bf |-> Null32, abf |-> Null32, asset |-> Null32]
  ELSE [amt |-> Amt(5 + i), neg |-> FALSE, asset |-> A32(100 + i),
        bf  |-> IF ins[i].k = "bl" THEN A32(70 + i) ELSE Null32,
        abf |-> IF ins[i].k = "bl" THEN A32(80 + i) ELSE Null32]
Frame   == [tx |-> [vin |-> [i \in 1..Len(ins) |-> InTx(i)], vout |-> <<>>],
            itk |-> [i \in 1..Len(ins) |-> Sk(i, ins[i].iss.tk)]]
AssetId(a) == CASE a = "in1" -> A32(101) [] a = "in2" -> A32(102)
                [] a = "iss" -> IssAsset(Frame, 1) [] a = "tok" -> IssToken(Frame, 1)
                [] a = "other" -> A32(99)
Keyed(k) == k \in {"key", "keyz", "keyzs", "keyfee", "keydone"}
Fee(k)   == k \in {"fee", "keyfee"}
OutTx(o) ==
  [asset |-> IF o.k = "keydone" THEN GenOf(AssetId(o.a), A32(5)) ELSE <<1>> \o AssetId(o.a),
   value |-> <<1>> \o Amt(IF o.k \in {"keyz", "keyzs"} THEN 0 ELSE 4), nonce |-> <<>>,
   script |-> CASE Fee(o.k) -> <<>> [] o.k = "keyz" -> <<106>> [] OTHER -> <<81>>]
Req ==
  [tx |-> [ver |-> LE(2, 4), lock |-> LE(0, 4), vin |-> Frame.tx.vin,
           vout |-> [i \in 1..Len(outs) |-> OutTx(outs[i])], inwit |-> <<>>, outwit |-> <<>>],
   mut |-> TRUE, typed |-> TRUE, descs |-> [i \in 1..Len(ins) |-> Desc(i)],
   opks |-> [i \in 1..Len(outs) |-> IF Keyed(outs[i].k) THEN Pub ELSE <<>>],
   iak |-> [i \in 1..Len(ins) |-> Sk(i, ins[i].iss.ak)], itk |-> Frame.itk,
   aux |-> IF \E i \in 1..Len(ins) : ins[i].k = "fo"
           THEN [i \in 1..Len(ins) |-> GenOf(A32(100 + i), A32(80 + i))] ELSE <<>>,
   strict |-> strict, exp |-> 0, bits |-> 52]

(* ------------------------------------------------------------- guarantees *)
R == Req
\* strict success blinds everything asked for, with every proof
StrictMeansAll == done /\ strict /\ Succeeds(R) =>
  /\ Proved(R) = {Asked(R)[k] : k \in 1..Len(Asked(R))}
  /\ \A i \in 1..Len(outs) : Keyed(outs[i].k) <=> <<"o", i>> \in Proved(R)
\* being strict only ever turns a success into a failure
StrictIsStronger == done /\ Succeeds([R EXCEPT !.strict = TRUE]) => Succeeds([R EXCEPT !.strict = FALSE])
\* nothing but what was asked for is touched
OnlyAsked == done => Touched(R) \subseteq {Asked(R)[k] : k \in 1..Len(Asked(R))}
\* something remains to balance with: the last thing touched is an output,
\* unless all of the balance was left open
ClosedBalance == done /\ Granted(R) /\ strict /\ Succeeds(R) /\ Touched(R) # {} =>
  LastOut(R)[1] = "o" /\ LastOut(R) \in Touched(R)
\* a request is not granted exactly when a key points at something not explicit
Refusal == done =>
  (~Granted(R) <=>
     \/ \E i \in 1..Len(ins) : LET x == ins[i].iss IN
          (x.ak /\ x.form \notin {"A", "AT", "R"}) \/ (x.tk /\ x.form \notin {"T", "AT"})
     \/ \E i \in 1..Len(outs) : outs[i].k \in {"keyzs", "keyfee", "keydone"})
\* each asset asked for is among those the proof ranges over, as often as it is provided
Ranges == done /\ Granted(R) =>
  Len(Targets(R)) = Len(ins)
    + Cardinality({i \in 1..Len(ins) : ins[i].iss.form \in {"A", "AT", "R"}})
    + Cardinality({i \in 1..Len(ins) : ins[i].iss.form \in {"T", "AT"}})

Emit == done => PrintT("@C " \o ToJson(
  [ins |-> ins, outs |-> outs, strict |-> strict, granted |-> Granted(R),
   ok |-> Succeeds(R), n |-> IF Granted(R) THEN Count(R) ELSE 0,
   touched |-> IF Granted(R) THEN {u[1] \o ToString(u[2]) : u \in Touched(R)} ELSE {},
   proved |-> IF Granted(R) THEN {u[1] \o ToString(u[2]) : u \in Proved(R)} ELSE {}]))

(* ------------------------------------------ building the request stepwise *)
Init == ins = <<>> /\ outs = <<>> /\ strict \in Stricts /\ done = FALSE
AddIn  == ~done /\ outs = <<>> /\ Len(ins) < MaxIn /\ \E i \in Ins : ins' = Append(ins, i) /\ UNCHANGED << outs, strict, done >>
Fits(o) == /\ o.a = "in2" => Len(ins) = 2
           /\ o.a = "iss" => ins[1].iss.form \in {"A", "AT", "R"}
           /\ o.a = "tok" => ins[1].iss.form \in {"T", "AT"}
AddOut == ~done /\ ins # <<>> /\ Len(outs) < MaxOut
          /\ \E o \in Outs : Fits(o) /\ outs' = Append(outs, o) /\ UNCHANGED << ins, strict, done >>
Finish == ~done /\ ins # <<>> /\ done' = TRUE /\ UNCHANGED << ins, outs, strict >>
Next == AddIn \/ AddOut \/ Finish
=============================================================================
