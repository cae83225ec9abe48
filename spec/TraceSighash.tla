---------------------------- MODULE TraceSighash ----------------------------
(* Recorded signature hashes judged against Sighash.                        *)
EXTENDS Sighash, TraceKit

VARIABLE pos
If(c, name) == IF c THEN {name} ELSE {}

Known(ht) == SubSeq(ht, 2, 4) = Zeros(3) /\ ht[1] \in {1, 2, 3, 129, 130, 131}

(* e.raw / e.err: result of the consensus form; e.cooked: of the checked form *)
LegacyEv(e) ==
  LET tx == T(e.tx)
      s  == Hex2B(e.script)
      ht == Hex2B(e.ht) IN
  IF IsWitnessProgram(s) \/ ~DropSep(s).ok THEN {"generator-outside-domain"}
  ELSE If(e.after # e.before, "transaction-modified") \cup
  (IF e.idx < 0
   THEN If(e.raw # "!ValueError" \/ e.cooked # "!ValueError", "negative-index-not-refused")
   ELSE IF ~LegacyDefined(tx, e.idx, ht)
   THEN If(e.raw # B2Hex(One32) \/ e.err # "T", "undefined-digest-not-reported") \cup
        If(Known(ht) /\ e.cooked # "!ValueError", "undefined-digest-signed")
   ELSE LET d == B2Hex(Legacy(s, tx, e.idx, ht)) IN
        If(e.raw # d \/ e.err # "F", "legacy-digest") \cup
        If(Known(ht) /\ e.cooked # d, "legacy-digest-checked-form"))

V0Ev(e) ==
  LET tx == T(e.tx)
      d  == B2Hex(V0(Hex2B(e.script), tx, e.idx, Hex2B(e.amt), Hex2B(e.ht))) IN
  If(e.after # e.before, "transaction-modified") \cup
  If(e.raw # d \/ e.err # "F", "v0-digest") \cup
  If(Known(Hex2B(e.ht)) /\ e.cooked # d, "v0-digest-checked-form")

TapArg(e, leaf) ==
  [tx |-> T(e.tx), spent |-> [k \in 1..Len(e.spent) |-> TOut(e.spent[k])],
   idx |-> e.idx, ht |-> e.ht, leaf |-> leaf, cs |-> Hex2B(e.cs),
   annex |-> Hex2B(e.annex), gen |-> Hex2B(e.gen)]
(* e.mode: "key", "leaf" (leaf hash given), "script" (method of the script) *)
TapEv(e) ==
  LET leaf == CASE e.mode = "key" -> <<>>
                [] e.mode = "leaf" -> Hex2B(e.leaf)
                [] e.mode = "script" -> LeafHash(LeafVersion, Hex2B(e.script))
      a == TapArg(e, leaf) IN
  If(e.after # e.before, "transaction-modified") \cup
  (IF ~TapDefined(a) \/ (e.mode = "leaf" /\ leaf = <<>>) \/ e.badlen
   THEN If(e.res # "!ValueError", "undefined-taproot-request-not-refused")
   ELSE If(e.res # B2Hex(Tap(a)), "taproot-digest"))

Judge(e) == CASE e.k = "leg" -> LegacyEv(e) [] e.k = "v0" -> V0Ev(e) [] e.k = "tap" -> TapEv(e)
              [] e.k = "sigver" -> If(e.res # "!ValueError", "foreign-signature-version-not-refused")

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
