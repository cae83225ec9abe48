------------------------------ MODULE ChainMC ------------------------------
(***************************************************************************)
(* All histories of Depth selections in a few lanes.  TLC checks that a    *)
(* lane's chain follows from its own history alone; all histories are      *)
(* replayed with real threads and contexts, looking at every lane after    *)
(* every step.                                                             *)
(***************************************************************************)
EXTENDS Chain, Integers, TLC, Json

CONSTANTS Depth, Lanes, Chains, Starts

VARIABLES lane, hist
vars == << lane, hist >>

Init == \E s \in [1..Lanes -> Starts] :
          /\ lane = [l \in 1..Lanes |-> NewLane(s[l])]
          /\ hist = << [op |-> "start", lane |-> 0, n |-> "", out |-> "", cur |-> s] >>
Curs(ls) == [l \in 1..Lanes |-> ls[l].cur]
Do(l, op, n, r) ==
  /\ lane' = [lane EXCEPT ![l] = r.lane]
  /\ hist' = Append(hist, [op |-> op, lane |-> l, n |-> n, out |-> r.out, cur |-> Curs(lane')])
Next == /\ Len(hist) <= Depth
        /\ \E l \in 1..Lanes :
             \/ \E n \in Chains : Do(l, "select", n, Select(lane[l], n)) \/ Do(l, "enter", n, Enter(lane[l], n))
             \/ \E how \in {"leave", "raise"} : lane[l].saved # << >> /\ Do(l, how, "", Leave(lane[l]))

(* the chain of a lane, read off its own history: the last selection that is
   not inside a temporary one that has been left *)
Own(l) == SelectSeq(hist, LAMBDA h : h.lane = l /\ h.out = "ok")
RECURSIVE Now(_, _, _)
Now(h, i, depth) ==
  IF i = 0 THEN hist[1].cur
  ELSE CASE h[i].op \in {"leave", "raise"} -> Now(h, i - 1, depth + 1)
         [] h[i].op = "enter" /\ depth > 0 -> Now(h, i - 1, depth - 1)
         [] h[i].op = "select" /\ depth > 0 -> Now(h, i - 1, depth)
         [] OTHER -> [l \in 1..Lanes |-> Alias[h[i].n]]
OwnHistory == \A l \in 1..Lanes : lane[l].cur = Now(Own(l), Len(Own(l)), 0)[l]
NonInterference == [][\E l \in 1..Lanes : \A m \in 1..Lanes : m # l => lane'[m] = lane[m]]_vars

\* what there is to see, for the replay
Table == Len(hist) > 1 \/
  PrintT("@A " \o ToJson([table |-> [c \in Networks |-> SetToSeq(View[c])]]))
Emit == Len(hist) = Depth + 1 => PrintT("@C " \o ToJson(hist))
=============================================================================
