----------------------------- MODULE ScriptOpsMC -----------------------------
(***************************************************************************)
(* A script is put together element by element.  Reading the bytes gives   *)
(* the elements back, and two scripts have the same bytes only if a reader *)
(* sees the same in both.  Every script is printed and replayed.           *)
(***************************************************************************)
EXTENDS ScriptOps, TLC, Json, FiniteSets

CONSTANTS MaxElems, Wide     \* Wide: how many elements may be taken from all of AllElems

Elem(k, o, n, d) == [k |-> k, op |-> o, num |-> n, data |-> d]
Name(i) == Elem("name", i, 0, <<>>)
Op(o)   == Elem("op", o, 0, <<>>)
Num(n)  == Elem("num", 0, n, <<>>)
Data(n) == Elem("data", 0, 0, [i \in 1..n |-> (i * 11 + n) % 256])

Names    == { Name(i) : i \in 1..Len(ElementsOps) }
Numbers  == { Num(n) : n \in {0, 1, 16, 17, -1, -2, 127, 128, 255, 256, -127, -128, -255,
                              32767, 32768, -32768, 65535, 65536, 8388607, 8388608,
                              -8388608, 16777216, 2147483647, -2147483647} }
Pushes   == { Data(n) : n \in {0, 1, 2, 20, 32, 33, 75, 76, 77, 255, 256, 520} }
Plain    == { Op(o) : o \in {0, 79, 80, 81, 96, 97, 106, 118, 135, 136, 169, 172, 186, 191,
                             192, 228, 229, 255} }
AllElems == Names \cup Numbers \cup Pushes \cup Plain
FewElems == { Name(1), Name(2), Name(37), Num(0), Num(17), Num(-1), Data(0), Data(76), Op(106), Op(96) }

VARIABLE es
Init == es = <<>>
Next == \/ Len(es) < Wide /\ \E x \in AllElems : es' = Append(es, x)
        \/ Len(es) < MaxElems /\ (\A i \in 1..Len(es) : es[i] \in FewElems)
           /\ \E x \in FewElems : es' = Append(es, x)

OpsDistinct == /\ Cardinality({ ElementsOps[i] : i \in 1..Len(ElementsOps) }) = Len(ElementsOps)
               /\ \A i \in 1..Len(ElementsOps) : OpCode(ElementsOps[i]) = 191 + i
ReadsBack == ReadScript(ScriptOf(es)) = [k \in 1..Len(es) |-> Seen(es[k])]

Tok(t) == t.t \o ":" \o (IF t.t = "data" THEN B2Hex(t.d) ELSE ToString(t.v))
Show ==
  LET r == ReadScript(ScriptOf(es)) IN
  PrintT("@C " \o ToJson([k |-> "ops",
         es |-> [i \in 1..Len(es) |->
                   [k |-> es[i].k, num |-> es[i].num, op |-> es[i].op, data |-> B2Hex(es[i].data),
                    name |-> IF es[i].k = "name" THEN ElementsOps[es[i].op] ELSE ""]],
         script |-> B2Hex(ScriptOf(es)),
         read |-> [i \in 1..Len(r) |-> Tok(r[i])]]))
=============================================================================
