------------------------------ MODULE TraceIds ------------------------------
(* Recorded ids, keys and script classifications judged against Ids.        *)
EXTENDS Ids, ScriptOps, TraceKit

VARIABLE pos
If(c, name) == IF c THEN {name} ELSE {}
Raised(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = "!"

EntEv(e) == LET d == B2Hex(Entropy(Hex2B(e.hash), Hex2B(e.n), Hex2B(e.contract))) IN
  If(e.res # d, "entropy") \cup If(e.again # d, "entropy-not-repeatable")
AstEv(e) == LET b == Hex2B(e.entropy) IN
  IF Len(b) # 32
  THEN If(e.ast # "!ValueError" \/ e.tok0 # "!ValueError" \/ e.tok1 # "!ValueError",
          "wrong-length-entropy-not-refused")
  ELSE If(e.ast # B2Hex(AssetOf(b)), "asset-id") \cup
       If(e.tok0 # B2Hex(TokenOf(b, FALSE)), "token-id") \cup
       If(e.tok1 # B2Hex(TokenOf(b, TRUE)), "token-id-confidential")
BadEv(e) == If(~Raised(e.res), e.what)
(* e.fn: module function, e.meth: method of the script; e.pub its public key *)
KeyEv(e) == LET d == BlindingKey(Hex2B(e.master), Hex2B(e.script)) IN
  IF ~IsScalar(d) THEN {}
  ELSE If(e.fn # B2Hex(d), "blinding-key") \cup
       If(e.meth # B2Hex(d), "blinding-key-of-script-method") \cup
       If(e.pub # B2Hex(PubOf(d)), "blinding-public-key") \cup
       If(e.master2 # e.master, "master-key-modified")
PegEv(e) == LET s == Hex2B(e.script)
                r == PegoutOf(s)
                w == IF r = <<>> THEN "none" ELSE B2Hex(r[1]) \o ":" \o B2Hex(r[2]) IN
  If(e.res # w, "pegout-data") \cup
  If(e.is # (IF r = <<>> THEN "F" ELSE "T"), "is-pegout") \cup
  If(e.uns # (IF IsUnspendable(s) THEN "T" ELSE "F"), "is-unspendable")

(* scripts: e.es the elements, e.script what was built, e.after and e.read the
   bytes and elements once something had kept it *)
ElemOf(x) == [k |-> x.k, num |-> x.num, data |-> Hex2B(x.data),
              op |-> IF x.k = "name" THEN OpCode(x.name) - 191 ELSE x.op]
TokText(t) == t.t \o ":" \o (IF t.t = "data" THEN B2Hex(t.d) ELSE ToString(t.v))
ReadText(s) == LET r == ReadScript(s) IN [k \in 1..Len(r) |-> TokText(r[k])]
KnownNames == { ElementsOps[k] : k \in 1..Len(ElementsOps) }
OpsEv(e) ==
  IF \E k \in 1..Len(e.es) : e.es[k].k = "name" /\ e.es[k].name \notin KnownNames
  THEN {}
  ELSE LET es == [k \in 1..Len(e.es) |-> ElemOf(e.es[k])]
           s == ScriptOf(es) IN
       If(e.script # B2Hex(s), "script-bytes") \cup
       If(e.after # B2Hex(s), "script-not-kept") \cup
       If(e.read # [k \in 1..Len(es) |-> TokText(Seen(es[k]))], "script-read-back") \cup
       If(e.cls # "T", "script-class")
OpnEv(e) == IF e.name \notin KnownNames THEN {}
            ELSE If(e.code # OpCode(e.name), "opcode") \cup If(e.cls # "T", "opcode-class")
OpNamesEv(e) == If(KnownNames \ { e.names[k] : k \in 1..Len(e.names) } # {}, "opcode-missing")
RdEv(e) == If(e.after # e.bytes, "script-not-kept") \cup
           If(e.read # ReadText(Hex2B(e.bytes)), "script-read")

Judge(e) == CASE e.k = "ent" -> EntEv(e) [] e.k = "ast" -> AstEv(e) [] e.k = "bad" -> BadEv(e)
              [] e.k = "key" -> KeyEv(e) [] e.k = "peg" -> PegEv(e)
              [] e.k = "ops" -> OpsEv(e) [] e.k = "opn" -> OpnEv(e)
              [] e.k = "opnames" -> OpNamesEv(e) [] e.k = "rd" -> RdEv(e)

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
