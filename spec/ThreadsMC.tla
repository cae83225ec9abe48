----------------------------- MODULE ThreadsMC -----------------------------
(***************************************************************************)
(* All ways two threads can be switched between, with at most Switches     *)
(* interruptions: neither gets anything else than it would get alone.  All *)
(* of them are carried out with operations of these kinds.  Shared tells   *)
(* what is (wrongly) kept once for all threads.                            *)
(***************************************************************************)
EXTENDS Threads, Json, TLC

CONSTANTS Programs, Switches, Shared
Ts == {1, 2}
ProgramsQuick == { << "use" >>, << "use", "ask" >>, << "select", "ask" >>, << "ask", "use" >> }
ProgramsDeep  == [1..1 -> {"use", "ask", "select"}] \cup [1..2 -> {"use", "ask", "select"}]

VARIABLES prog, at, step, chain, handle, seen, buf, got, cur, left, who
vars == << prog, at, step, chain, handle, seen, buf, got, cur, left, who >>
(* where a thread keeps its chain and its arguments *)
C(t) == IF Shared = "chain" THEN 1 ELSE t
B(t) == IF Shared = "buffer" THEN 1 ELSE t
StartChain == << "A", "B" >>

Init == /\ prog \in [Ts -> Programs]
        /\ at = << 1, 1 >> /\ step = << 1, 1 >> /\ chain = StartChain
        /\ handle = "" /\ seen = << "", "" >> /\ buf = << << >>, << >> >>
        /\ got = << << >>, << >> >> /\ cur \in Ts /\ left = Switches /\ who = << >>
Live(t) == at[t] <= Len(prog[t])
Op(t)   == prog[t][at[t]]
Now(t)  == StepsOf(Op(t))[step[t]]
Say(t, v) == got' = [got EXCEPT ![t] = Append(@, << v, t, at[t] >>)]

Do(t) ==
  /\ Live(t)
  /\ who' = Append(who, t)
  /\ IF step[t] < Len(StepsOf(Op(t))) THEN step' = [step EXCEPT ![t] = @ + 1] /\ at' = at
     ELSE step' = [step EXCEPT ![t] = 1] /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ CASE Now(t) = "look"    -> seen' = [seen EXCEPT ![t] = handle] /\ UNCHANGED << chain, handle, buf, got >>
       [] Now(t) = "load"    -> seen' = [seen EXCEPT ![t] = IF @ = "" THEN "library" ELSE @] /\ UNCHANGED << chain, handle, buf, got >>
       [] Now(t) = "publish" -> handle' = seen[t] /\ UNCHANGED << chain, seen, buf, got >>
       [] Now(t) = "fill"    -> buf' = [buf EXCEPT ![B(t)] = << t, at[t] >>] /\ UNCHANGED << chain, handle, seen, got >>
       [] Now(t) = "call"    -> /\ got' = [got EXCEPT ![t] = Append(@, IF seen[t] = "" THEN << "none", t, at[t] >>
                                                                      ELSE << "value" >> \o buf[B(t)])]
                                /\ UNCHANGED << chain, handle, seen, buf >>
       [] Now(t) = "read"    -> seen' = [seen EXCEPT ![t] = chain[C(t)]] /\ UNCHANGED << chain, handle, buf, got >>
       [] Now(t) = "answer"  -> Say(t, seen[t]) /\ UNCHANGED << chain, handle, seen, buf >>
       [] Now(t) = "set"     -> /\ chain' = [chain EXCEPT ![C(t)] = Other(@)]
                                /\ Say(t, "done") /\ UNCHANGED << handle, seen, buf >>

Carry  == Do(cur) /\ UNCHANGED << prog, cur, left >>
Switch == /\ \E t \in Ts \ {cur} : Do(t) /\ cur' = t
          /\ left' = IF Live(cur) THEN left - 1 ELSE left
          /\ left' >= 0 /\ UNCHANGED prog
Next == Carry \/ Switch

Done == \A t \in Ts : ~Live(t)
EachAlone == \A t \in Ts : ~Live(t) => Undisturbed(got[t], Alone(t, prog[t], StartChain[t]))
OneLibrary == handle \in {"", "library"}
Emit == Done => PrintT("@C " \o ToJson([prog |-> prog, who |-> who]))
=============================================================================
