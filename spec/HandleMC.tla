------------------------------ MODULE HandleMC ------------------------------
(***************************************************************************)
(* All histories of Depth operations with two names.  TLC checks that the  *)
(* library, once loaded, never changes and is the one in force at the      *)
(* first successful use; all histories are replayed, each one in a process *)
(* of its own.                                                             *)
(***************************************************************************)
EXTENDS Handle, Integers, TLC, Json

CONSTANTS Depth, Kinds, Names

VARIABLES st, hist, first
vars == << st, hist, first >>

Init == /\ \E f \in [Names -> Kinds] : st = [files |-> f, path |-> "", lib |-> ""]
        /\ hist = << [op |-> "files", n |-> "", k |-> "", out |-> "", path |-> "", files |-> st.files] >>
        /\ first = ""
Rec(op, n, k, r) == [op |-> op, n |-> n, k |-> k, out |-> r.out, path |-> r.st.path, files |-> st.files]
Do(op, n, k, r) ==
  /\ st' = r.st /\ hist' = Append(hist, Rec(op, n, k, r))
  /\ first' = IF first = "" /\ op \in {"use", "info"} /\ r.out # "raised" THEN Target(st) ELSE first
Next == /\ Len(hist) <= Depth
        /\ \/ \E n \in Names : Do("set", n, "", SetPath(st, n))
           \/ \E n \in Names, k \in Kinds : k # st.files[n] /\ hist[Len(hist)].op # "put" /\ Do("put", n, k, Put(st, n, k))
           \/ \E n \in Names : hist[Len(hist)].op = "files" /\ Do("base", n, "", Base(st, n))
           \/ Do("use", "", "", Use(st))
           \/ Do("info", "", "", Info(st))

Once     == st.lib = first
Kept     == [][st.lib # "" => st'.lib = st.lib]_vars
PathFile == [][st'.path # st.path => IsFile(st.files[st'.path])]_vars
\* a failed load leaves things as they were, so a corrected path can succeed
Retry    == st.lib = "" /\ (\E n \in Names : Loads(st.files[n])) =>
              \E n \in Names : LET s == SetPath(st, n) IN s.out = "ok" /\ Use(s.st).out = st.files[n]
Emit == Len(hist) = Depth + 1 /\ hist[Len(hist)].op \in {"use", "info"} => PrintT("@C " \o ToJson(hist))
=============================================================================
