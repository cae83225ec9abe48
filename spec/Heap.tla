-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Who owns what: transactions and their parts as an object graph.         *)
(*                                                                         *)
(* hp is a sequence of objects [k, m, f]: kind, mutable or not, fields.    *)
(* A field is a plain value, a reference (index into hp) or a sequence of  *)
(* references.  Building an object from parts and converting an object     *)
(* copy everything below it, giving every copy the mutability asked for;   *)
(* only an immutable object asked for in immutable form may be the same    *)
(* one.  Assigning a part to a field of a mutable object does not copy:    *)
(* the program then holds two names of one object.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Leaves(k) == CASE k = "tx" -> {"ver", "lock"} [] k = "in" -> {"script", "seq", "iss", "pegin"}
               [] k = "out" -> {"asset", "value", "nonce", "script"} [] k = "op" -> {"hash", "n"}
               [] k = "wit" -> {} [] k = "inwit" -> {"ar", "kr", "sw", "pw"} [] k = "outwit" -> {"sp", "rp"}
Refs(k)   == CASE k = "tx" -> {"wit"} [] k = "in" -> {"prevout"} [] OTHER -> {}
Lists(k)  == CASE k = "tx" -> {"vin", "vout"} [] k = "wit" -> {"inwit", "outwit"} [] OTHER -> {}
KindOf(f) == CASE f = "wit" -> "wit" [] f = "prevout" -> "op" [] f = "vin" -> "in" [] f = "vout" -> "out"
               [] f \in {"inwit", "outwit"} -> f
Fields(k) == Leaves(k) \cup Refs(k) \cup Lists(k)

NullIn  == [ar |-> "", kr |-> "", sw |-> <<>>, pw |-> <<>>]
NullOut == [sp |-> "", rp |-> ""]

(* -------------------------------------------------------------- building *)
Put(hp, k, m, f) == [hp |-> Append(hp, [k |-> k, m |-> m, f |-> f]), id |-> Len(hp) + 1]

WitNull(hp, w) == /\ \A i \in 1..Len(hp[w].f.inwit) : hp[hp[w].f.inwit[i]].f = NullIn
                  /\ \A i \in 1..Len(hp[w].f.outwit) : hp[hp[w].f.outwit[i]].f = NullOut

RECURSIVE Many(_, _, _, _, _, _)
(* n fresh empty witnesses *)
Many(hp, k, m, f, n, ids) ==
  IF n = 0 THEN [hp |-> hp, ids |-> ids]
  ELSE LET a == Put(hp, k, m, f) IN Many(a.hp, k, m, f, n - 1, Append(ids, a.id))

RECURSIVE Copy(_, _, _), Build(_, _, _, _), CopyAll(_, _, _, _)
Copy(hp, id, m) == IF ~m /\ ~hp[id].m THEN [hp |-> hp, id |-> id]
                   ELSE Build(hp, hp[id].k, m, hp[id].f)
CopyAll(hp, ids, m, done) ==
  IF ids = <<>> THEN [hp |-> hp, ids |-> done]
  ELSE LET a == Copy(hp, Head(ids), m) IN CopyAll(a.hp, Tail(ids), m, Append(done, a.id))

(* a new object from fields f that refer to existing objects *)
Build(hp, k, m, f) ==
  CASE k \in {"out", "op", "inwit", "outwit"} -> Put(hp, k, m, f)
    [] k = "in"  -> LET a == Copy(hp, f.prevout, m)
                    IN Put(a.hp, k, m, [f EXCEPT !.prevout = a.id])
    [] k = "wit" -> LET a == CopyAll(hp, f.inwit, m, <<>>)
                        b == CopyAll(a.hp, f.outwit, m, <<>>)
                    IN Put(b.hp, k, m, [inwit |-> a.ids, outwit |-> b.ids])
    [] k = "tx"  ->
         LET a == CopyAll(hp, f.vin, m, <<>>)
             b == CopyAll(a.hp, f.vout, m, <<>>)
             \* a mutable transaction has a place for every witness
             e == Many(b.hp, "inwit", TRUE, NullIn, Len(a.ids), <<>>)
             g == Many(e.hp, "outwit", TRUE, NullOut, Len(b.ids), <<>>)
             w == IF m /\ WitNull(hp, f.wit)
                  THEN Put(g.hp, "wit", TRUE, [inwit |-> e.ids, outwit |-> g.ids])
                  ELSE Copy(b.hp, f.wit, m)
         IN Put(w.hp, k, m, [f EXCEPT !.vin = a.ids, !.vout = b.ids, !.wit = w.id])

(* --------------------------------------------------------------- looking *)
RECURSIVE At(_, _, _)
(* a path is a sequence of steps [f, i]; i = 0 for a field that is no list *)
At(hp, id, p) == IF p = <<>> THEN id
                 ELSE LET s == Head(p) IN
                      At(hp, IF s.i = 0 THEN hp[id].f[s.f] ELSE hp[id].f[s.f][s.i], Tail(p))

RECURSIVE View(_, _)
View(hp, id) ==
  LET o == hp[id] IN
  [m |-> IF o.m THEN "mut" ELSE "imm"] @@ [x \in Fields(o.k) |->
     IF x \in Leaves(o.k) THEN o.f[x]
     ELSE IF x \in Refs(o.k) THEN View(hp, o.f[x])
     ELSE [j \in 1..Len(o.f[x]) |-> View(hp, o.f[x][j])]]

RECURSIVE Below(_, _)
Below(hp, id) ==
  LET o == hp[id] IN
  {id} \cup UNION { Below(hp, o.f[x]) : x \in Refs(o.k) }
       \cup UNION { UNION { Below(hp, o.f[x][j]) : j \in 1..Len(o.f[x]) } : x \in Lists(o.k) }

RECURSIVE Load(_, _, _), LoadAll(_, _, _, _)
(* the object graph of a view *)
LoadAll(hp, k, vs, done) ==
  IF vs = <<>> THEN [hp |-> hp, ids |-> done]
  ELSE LET a == Load(hp, k, Head(vs)) IN LoadAll(a.hp, k, Tail(vs), Append(done, a.id))
Load(hp, k, v) ==
  CASE k \in {"out", "op", "inwit", "outwit"} -> Put(hp, k, v.m = "mut", [x \in Leaves(k) |-> v[x]])
    [] k = "in"  -> LET a == Load(hp, "op", v.prevout)
                    IN Put(a.hp, k, v.m = "mut", [x \in Leaves(k) |-> v[x]] @@ [prevout |-> a.id])
    [] k = "wit" -> LET a == LoadAll(hp, "inwit", v.inwit, <<>>)
                        b == LoadAll(a.hp, "outwit", v.outwit, <<>>)
                    IN Put(b.hp, k, v.m = "mut", [inwit |-> a.ids, outwit |-> b.ids])
    [] k = "tx"  -> LET a == LoadAll(hp, "in", v.vin, <<>>)
                        b == LoadAll(a.hp, "out", v.vout, <<>>)
                        w == Load(b.hp, "wit", v.wit)
                    IN Put(w.hp, k, v.m = "mut", [ver |-> v.ver, lock |-> v.lock, vin |-> a.ids,
                                          vout |-> b.ids, wit |-> w.id])

(* ---------------------------------------------------------------- acting *)
(* state: [hp, roots, out] with out the outcome of the last operation.      *)
(* Operations o: r - root number, p - path of the object operated on        *)
(*   init   k, v    : object made from scratch to show v                    *)
(*   new    k, m, f : object of kind k; references given as [r, p]          *)
(*   conv   m       : copy of the object in mutability m                    *)
(*   get            : another name for the object itself                    *)
(*   set    x, v    : plain field;  put x, s: field := object s = [r, p]    *)
(*   add    x, s / del x, i / repl x, i, s : list operations                *)
(*   poke           : try to change a value held in the object (a           *)
(*                    commitment, an issuance, a script) - always refused   *)
(*   drop   x       : delete attribute x of an immutable object             *)
(*   bad            : a failing construction                                *)
(*   buf    x, v    : the program changes a buffer it assigned to field x   *)
Ref(st, s) == At(st.hp, st.roots[s.r], s.p)
Bind(st, a) == [hp |-> a.hp, roots |-> Append(st.roots, a.id), out |-> "ok"]
Refused(st) == [st EXCEPT !.out = "refused"]

Step(st, o) ==
  LET me == IF o.op \in {"init", "new", "bad"} THEN 0 ELSE Ref(st, o) IN
  CASE o.op = "init" -> Bind(st, Load(st.hp, o.k, o.v))
    [] o.op = "new"  ->
         Bind(st, Build(st.hp, o.k, o.m, [x \in Fields(o.k) |->
                  IF x \in Leaves(o.k) THEN o.f[x]
                  ELSE IF x \in Refs(o.k) THEN Ref(st, o.f[x])
                  ELSE [j \in 1..Len(o.f[x]) |-> Ref(st, o.f[x][j])]]))
    [] o.op = "conv" -> Bind(st, Copy(st.hp, me, o.m))
    [] o.op = "get"  -> Bind(st, [hp |-> st.hp, id |-> me])
    [] o.op \in {"poke", "drop", "bad"} -> Refused(st)
    [] ~st.hp[me].m -> Refused(st)
    [] o.op \in {"set", "buf"} -> [st EXCEPT !.hp[me].f[o.x] = o.v, !.out = "ok"]
    [] o.op = "put"  -> [st EXCEPT !.hp[me].f[o.x] = Ref(st, o.s), !.out = "ok"]
    [] o.op = "add"  -> [st EXCEPT !.hp[me].f[o.x] = Append(@, Ref(st, o.s)), !.out = "ok"]
    [] o.op = "repl" -> [st EXCEPT !.hp[me].f[o.x][o.i] = Ref(st, o.s), !.out = "ok"]
    [] o.op = "del"  -> [st EXCEPT !.hp[me].f[o.x] = SubSeq(@, 1, o.i - 1) \o SubSeq(@, o.i + 1, Len(@)), !.out = "ok"]

Views(st) == [r \in 1..Len(st.roots) |-> View(st.hp, st.roots[r])]
=============================================================================
