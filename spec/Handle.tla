------------------------------- MODULE Handle -------------------------------
(***************************************************************************)
(* Selection of the cryptographic library in one process.                  *)
(*                                                                         *)
(*  files  what every name points to: "none", "dir", "junk" (a file that   *)
(*         is no library), "plain" and "narrow" (libsecp256k1, the latter  *)
(*         without Schnorr signatures), "part" (claims the zero-knowledge  *)
(*         capability but lacks its functions), "z0", "z1" (two complete   *)
(*         libraries that can be told apart)                               *)
(*  path   the name in force, "" for the default                           *)
(*  lib    the library loaded, "" for none yet                             *)
(***************************************************************************)
EXTENDS Sequences

IsFile(k)   == k \notin {"none", "dir"}
Loads(k)    == k \in {"plain", "narrow", "z0", "z1"}
HasZkp(k)   == k \in {"z0", "z1"}
Schnorr(k)  == k # "narrow"
Default     == "plain"

Target(s) == IF s.path = "" THEN Default
             ELSE s.files[s.path]

\* every operation gives the next state and what the caller sees
\* set(n): "ok" or "refused"
SetPath(s, n) == IF n # "" /\ IsFile(s.files[n])
                 THEN [st |-> [s EXCEPT !.path = n], out |-> "ok"]
                 ELSE [st |-> s, out |-> "refused"]
\* the library the base package signs with is chosen separately
Base(s, n)    == [st |-> s, out |-> IF IsFile(s.files[n]) THEN "ok" ELSE "refused"]
Put(s, n, k)  == [st |-> [s EXCEPT !.files[n] = k], out |-> "ok"]
\* first successful use decides
Use(s) == IF s.lib # "" THEN [st |-> s, out |-> s.lib]
          ELSE IF Loads(Target(s)) THEN [st |-> [s EXCEPT !.lib = Target(s)], out |-> Target(s)]
          ELSE [st |-> s, out |-> "raised"]
\* inspecting a range proof is a use
Info(s) == LET u == Use(s) IN
  [st |-> u.st, out |-> IF u.out = "raised" THEN "raised"
                        ELSE IF HasZkp(u.out) THEN u.out ELSE "unavailable"]
\* what a use shows: the capabilities of the library
Caps(k) == << HasZkp(k), Schnorr(k) >>
=============================================================================
