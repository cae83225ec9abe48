------------------------------ MODULE HeapMC ------------------------------
(***************************************************************************)
(* Every sequence of Depth operations on one transaction, focused on one   *)
(* of its parts: converting it or the part, naming the part, modifying it, *)
(* assigning it elsewhere, building a new whole from it.                   *)
(***************************************************************************)
EXTENDS Heap, FiniteSets, Json

CONSTANT Depth

S(f, i) == [f |-> f, i |-> i]
Foci == { <<>>, <<S("vin", 1)>>, <<S("vin", 1), S("prevout", 0)>>, <<S("vout", 1)>>,
          <<S("wit", 0)>>, <<S("wit", 0), S("inwit", 1)>>, <<S("wit", 0), S("outwit", 1)>> }

Iss(v) == [nonce |-> "", entropy |-> "", amt |-> v, keys |-> ""]
TxView(mm, w) ==
  LET m == IF mm THEN "mut" ELSE "imm" IN
  [m |-> m, ver |-> "02000000", lock |-> "00000000",
   vin |-> << [m |-> m, prevout |-> [m |-> m, hash |-> "11", n |-> "00000000"], script |-> "51",
               seq |-> "07000000", iss |-> Iss(""), pegin |-> FALSE] >>,
   vout |-> << [m |-> m, asset |-> "", value |-> "", nonce |-> "", script |-> "52"] >>,
   wit |-> [m |-> m,
            inwit |-> IF w = "no" THEN <<>> ELSE << [m |-> m, ar |-> "", kr |-> "",
                        sw |-> IF w = "full" THEN << "aa" >> ELSE <<>>, pw |-> <<>>] >>,
            outwit |-> IF w = "no" THEN <<>> ELSE << [m |-> m, sp |-> "", rp |-> IF w = "full" THEN "bb" ELSE ""] >>]]

VARIABLES st, hist, focus, frozen
vars == << st, hist, focus, frozen >>

Start(m, w) == LET a == Load(<<>>, "tx", TxView(m, w)) IN [hp |-> a.hp, roots |-> << a.id >>, out |-> "ok"]

(* ------------------------------------------------------ the operations *)
Tag(n) == CASE n = 0 -> "c0" [] n = 1 -> "c1" [] n = 2 -> "c2" [] n = 3 -> "c3" [] OTHER -> "c4"
Field(k) == CASE k = "tx" -> "lock" [] k = "in" -> "script" [] k = "out" -> "script" [] k = "op" -> "hash"
              [] k = "wit" -> "" [] k = "inwit" -> "ar" [] k = "outwit" -> "rp"
Val(k, n) == IF k = "tx" THEN Tag(n) \o "000000" ELSE Tag(n)

Has(r, p) == \* the path exists below root r
  LET o == st.hp[st.roots[r]] IN
  IF p = <<>> THEN TRUE
  ELSE o.k = "tx" /\ (CASE p[1].f = "wit" -> (Len(p) = 1 \/ Len(st.hp[o.f.wit].f[p[2].f]) >= 1)
                        [] OTHER -> Len(o.f[p[1].f]) >= 1)
Spots(r) == IF st.hp[st.roots[r]].k = "tx" THEN { p \in { <<>>, focus } : Has(r, p) } ELSE { <<>> }
Kind(r, p) == st.hp[At(st.hp, st.roots[r], p)].k

\* where an object of kind k can be put into transaction r
Homes(r, k) ==
  LET o == st.hp[st.roots[r]] IN
  IF o.k # "tx" THEN {}
  ELSE CASE k = "wit" -> { [op |-> "put", r |-> r, p |-> <<>>, x |-> "wit"] }
         [] k = "in"  -> { [op |-> "add", r |-> r, p |-> <<>>, x |-> "vin"] }
         [] k = "out" -> { [op |-> "add", r |-> r, p |-> <<>>, x |-> "vout"] }
         [] k = "op" /\ Has(r, <<S("vin", 1)>>) -> { [op |-> "put", r |-> r, p |-> <<S("vin", 1)>>, x |-> "prevout"] }
         [] k = "inwit"  -> { [op |-> "add", r |-> r, p |-> <<S("wit", 0)>>, x |-> "inwit"] }
         [] k = "outwit" -> { [op |-> "add", r |-> r, p |-> <<S("wit", 0)>>, x |-> "outwit"] }
         [] OTHER -> {}

Ops ==
  UNION { UNION {
      { [op |-> "conv", r |-> r, p |-> p, m |-> m] : m \in BOOLEAN }
      \cup (IF p # <<>> THEN { [op |-> "get", r |-> r, p |-> p] } ELSE {})
      \cup (IF Field(Kind(r, p)) # ""
            THEN { [op |-> "set", r |-> r, p |-> p, x |-> Field(Kind(r, p)), v |-> Val(Kind(r, p), Len(hist))] } ELSE {})
      : p \in Spots(r) }
    \* the last named object may be put into a transaction
    \cup (IF r < Len(st.roots)
          THEN { h @@ [s |-> [r |-> Len(st.roots), p |-> <<>>]] : h \in Homes(r, Kind(Len(st.roots), <<>>)) } ELSE {})
    : r \in 1..Len(st.roots) }
  \* a new transaction out of parts of the first one and of the last named object
  \cup (IF Kind(Len(st.roots), <<>>) \in {"in", "out", "wit"}
        THEN LET q == [r |-> Len(st.roots), p |-> <<>>]  t == Kind(Len(st.roots), <<>>)
                 part(f) == IF Has(1, <<S(f, 1)>>) THEN << [r |-> 1, p |-> <<S(f, 1)>>] >> ELSE <<>>
             IN { [op |-> "new", k |-> "tx", m |-> m, f |-> [ver |-> "01000000", lock |-> "09000000",
                    vin |-> (IF t = "in" THEN << q >> ELSE part("vin")),
                    vout |-> (IF t = "out" THEN << q, q >> ELSE part("vout")),
                    wit |-> IF t = "wit" THEN q ELSE [r |-> 1, p |-> <<S("wit", 0)>>]]] : m \in BOOLEAN }
        ELSE {})

Init == /\ focus \in Foci
        /\ \E m \in BOOLEAN, w \in {"no", "full"} : st = Start(m, w)
        /\ hist = << [init |-> View(st.hp, st.roots[1])] >> /\ frozen = TRUE
Next == /\ Len(hist) <= Depth
        /\ \E o \in Ops :
             LET s2 == Step(st, o) IN
             /\ st' = s2 /\ hist' = Append(hist, [o |-> o, out |-> s2.out])
             \* immutable objects show the same ever after
             /\ frozen' = \A r \in 1..Len(st.roots) :
                            ~st.hp[st.roots[r]].m => View(s2.hp, s2.roots[r]) = View(st.hp, st.roots[r])
        /\ UNCHANGED focus

(* nothing below an immutable object is mutable *)
ImmutableDeep == \A r \in 1..Len(st.roots) : ~st.hp[st.roots[r]].m =>
                   \A i \in Below(st.hp, st.roots[r]) : ~st.hp[i].m
Frozen == frozen
(* a copy shares no mutable object with anything, until the program names  *)
(* or assigns parts                                                        *)
Copies == \A i \in 2..Len(hist) : hist[i].o.op \in {"conv", "new", "set"}
Separate == Copies => \A r, q \in 1..Len(st.roots) : r # q =>
              \A i \in Below(st.hp, st.roots[r]) \cap Below(st.hp, st.roots[q]) : ~st.hp[i].m
(* a result has one mutability throughout *)
Uniform == (Len(hist) > 1 /\ hist[Len(hist)].o.op \in {"conv", "new"}) =>
             \A i \in Below(st.hp, st.roots[Len(st.roots)]) : st.hp[i].m = hist[Len(hist)].o.m

Emit == Len(hist) = Depth + 1 =>
          PrintT("@C " \o ToJson([init |-> hist[1].init, ops |-> [i \in 1..Depth |-> hist[i + 1].o],
                                  outs |-> [i \in 1..Depth |-> hist[i + 1].out], views |-> Views(st)]))
=============================================================================
