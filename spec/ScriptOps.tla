------------------------------ MODULE ScriptOps ------------------------------
(***************************************************************************)
(* Scripts as they are put together: operations by name, numbers and data. *)
(* An element is [k, op, num, data]:                                       *)
(*   k = "name"  the Elements operation number op of ElementsOps           *)
(*   k = "op"    the operation with code op                                *)
(*   k = "num"   a number                                                  *)
(*   k = "data"  bytes to be pushed                                        *)
(***************************************************************************)
EXTENDS Script

(* the operations Elements adds to Bitcoin's, in the order of their codes,
   which are 192 (0xc0) and up *)
ElementsOps ==
  << "OP_DETERMINISTICRANDOM", "OP_CHECKSIGFROMSTACK", "OP_CHECKSIGFROMSTACKVERIFY",
     "OP_SUBSTR_LAZY",
     "OP_SHA256INITIALIZE", "OP_SHA256UPDATE", "OP_SHA256FINALIZE",
     "OP_INSPECTINPUTOUTPOINT", "OP_INSPECTINPUTASSET", "OP_INSPECTINPUTVALUE",
     "OP_INSPECTINPUTSCRIPTPUBKEY", "OP_INSPECTINPUTSEQUENCE", "OP_INSPECTINPUTISSUANCE",
     "OP_PUSHCURRENTINPUTINDEX",
     "OP_INSPECTOUTPUTASSET", "OP_INSPECTOUTPUTVALUE", "OP_INSPECTOUTPUTNONCE",
     "OP_INSPECTOUTPUTSCRIPTPUBKEY",
     "OP_INSPECTVERSION", "OP_INSPECTLOCKTIME", "OP_INSPECTNUMINPUTS",
     "OP_INSPECTNUMOUTPUTS", "OP_TXWEIGHT",
     "OP_ADD64", "OP_SUB64", "OP_MUL64", "OP_DIV64", "OP_NEG64", "OP_LESSTHAN64",
     "OP_LESSTHANOREQUAL64", "OP_GREATERTHAN64", "OP_GREATERTHANOREQUAL64",
     "OP_SCRIPTNUMTOLE64", "OP_LE64TOSCRIPTNUM", "OP_LE32TOLE64",
     "OP_ECMULSCALARVERIFY", "OP_TWEAKVERIFY" >>
OpCode(name) == 191 + CHOOSE i \in 1..Len(ElementsOps) : ElementsOps[i] = name

(* script numbers: little-endian magnitude, the sign in the top bit *)
Magnitude(n) == CASE n = 0 -> <<>>
                  [] n < 256 -> <<n>>
                  [] n < 65536 -> LE(n, 2)
                  [] n < 16777216 -> LE(n, 3)
                  [] OTHER -> LE(n, 4)
NumBytes(n) ==
  LET neg == n < 0
      m == Magnitude(IF neg THEN -n ELSE n)
      l == Len(m)
  IN IF l = 0 THEN <<>>
     ELSE IF m[l] >= 128 THEN Append(m, IF neg THEN 128 ELSE 0)
     ELSE IF neg THEN [m EXCEPT ![l] = @ + 128]
     ELSE m
PushOf(d) == (CASE Len(d) < 76 -> <<Len(d)>>
                [] Len(d) < 256 -> <<76, Len(d)>>
                [] Len(d) < 65536 -> <<77>> \o LE(Len(d), 2)
                [] OTHER -> <<78>> \o LE(Len(d), 4)) \o d
ElemBytes(x) ==
  CASE x.k = "name" -> <<191 + x.op>>
    [] x.k = "op"   -> <<x.op>>
    [] x.k = "num"  -> IF x.num = 0 THEN <<0>>
                       ELSE IF 1 <= x.num /\ x.num <= 16 THEN <<80 + x.num>>
                       ELSE IF x.num = -1 THEN <<79>>
                       ELSE PushOf(NumBytes(x.num))
    [] x.k = "data" -> PushOf(x.data)
ScriptOf(es) == Cat([k \in 1..Len(es) |-> ElemBytes(es[k])])

(* what is read: [t, v, d] with t "num", "data" or "op" *)
TokNum(n)  == [t |-> "num", v |-> n, d |-> <<>>]
TokData(d) == [t |-> "data", v |-> 0, d |-> d]
TokOp(o)   == [t |-> "op", v |-> o, d |-> <<>>]
RECURSIVE ReadFrom(_, _)
ReadFrom(s, p) ==
  IF p > Len(s) THEN <<>>
  ELSE LET o == ReadOp(s, p) IN
       IF ~o.ok THEN <<TokOp(256)>>
       ELSE << IF o.op = 0 THEN TokNum(0)
               ELSE IF o.push THEN TokData(o.data)
               ELSE IF 81 <= o.op /\ o.op <= 96 THEN TokNum(o.op - 80)
               ELSE TokOp(o.op) >> \o ReadFrom(s, o.p)
ReadScript(s) == ReadFrom(s, 1)

(* what the writer put in, as a reader sees it *)
Seen(x) ==
  CASE x.k = "name" -> TokOp(191 + x.op)
    [] x.k = "op"   -> IF x.op = 0 THEN TokNum(0)
                       ELSE IF 81 <= x.op /\ x.op <= 96 THEN TokNum(x.op - 80) ELSE TokOp(x.op)
    [] x.k = "num"  -> IF 0 <= x.num /\ x.num <= 16 THEN TokNum(x.num)
                       ELSE IF x.num = -1 THEN TokOp(79) ELSE TokData(NumBytes(x.num))
    [] x.k = "data" -> IF x.data = <<>> THEN TokNum(0) ELSE TokData(x.data)
=============================================================================
