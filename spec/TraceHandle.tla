----------------------------- MODULE TraceHandle -----------------------------
(* Recorded histories of selecting and using the library, each from a fresh
   process, judged step by step against Handle. *)
EXTENDS Handle, TraceKit

VARIABLES h, k, st
Steps(n) == Trace[n].steps
If(c, name) == IF c THEN {name} ELSE {}
Raised(x) == Len(x) > 0 /\ SubSeq(x, 1, 1) = "!"

Result(s, e) ==
  CASE e.op = "files" -> [st |-> [files |-> e.files, path |-> "", lib |-> ""], out |-> "ok"]
    [] e.op = "set"   -> SetPath(s, e.n)
    [] e.op = "base"  -> IF e.n = "" THEN [st |-> s, out |-> "refused"] ELSE Base(s, e.n)
    [] e.op = "put"   -> Put(s, e.n, e.kind)
    [] e.op \in {"use", "crypto"} -> Use(s)
    [] e.op = "info"  -> Info(s)

(* e.out: what was seen; e.path: the path reported afterwards;
   e.same: use returned the same object as the first successful use *)
Judge(s, e) ==
  LET r == Result(s, e) IN
  If(e.path # r.st.path, IF e.op = "set" THEN "path-after-setting" ELSE "path-changed-otherwise") \cup
  CASE e.op \in {"files", "put", "base"} -> {}
    [] e.op = "set" -> If(r.out = "ok" /\ e.out # "ok", "file-refused") \cup
                       If(r.out = "refused" /\ ~Raised(e.out), "not-a-file-accepted")
    [] e.op = "use" ->
         IF r.out = "raised" THEN If(~Raised(e.out), "unusable-library-reported-as-loaded")
         ELSE If(Raised(e.out), "usable-library-not-loaded") \cup
              If(~Raised(e.out) /\ e.zkp # HasZkp(r.out), "capability-zkp") \cup
              If(~Raised(e.out) /\ e.schnorr # Schnorr(r.out), "capability-schnorr") \cup
              If(~Raised(e.out) /\ ~e.same, "library-replaced")
    [] e.op = "info" ->
         CASE r.out = "raised" -> If(~Raised(e.out), "unusable-library-inspects-proof")
           [] r.out = "unavailable" -> If(e.out # "!RuntimeError", "inspection-without-capability")
           [] OTHER -> If(e.out # r.out, "proof-inspected-by-another-library")
    \* blinding and unblinding need the capability as well
    [] e.op = "crypto" ->
         IF r.out # "raised" /\ HasZkp(r.out) THEN If(e.out # "ok", "blinding-with-capability")
         ELSE If(e.out = "ok", "blinding-without-capability") \cup
              If(~e.same, "transaction-changed-without-capability")

Init == h \in 1..Len(Trace) /\ k = 0 /\ st = << [files |-> << >>, path |-> "", lib |-> ""], [files |-> << >>, path |-> "", lib |-> ""] >>
Next == /\ k < Len(Steps(h))
        /\ k' = k + 1
        /\ st' = << st[2], Result(st[2], Steps(h)[k + 1]).st >>
        /\ UNCHANGED h
Conforms == k > 0 => Report(h, Judge(st[1], Steps(h)[k]))
=============================================================================
