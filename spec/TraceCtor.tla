------------------------------ MODULE TraceCtor ------------------------------
(* Recorded constructions and conversions of objects judged against Ctor.   *)
EXTENDS Ctor, TraceKit

VARIABLE pos
If(c, name) == IF c THEN {name} ELSE {}
Raised(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = "!"

CtorEv(e) ==
  LET r == Res(e.cls, e.args, e.mut) IN
  CASE r = "any" -> {}
    [] r = "refused" -> If(~Raised(e.res), "bad-parts-accepted")
    [] r = "made" ->
       IF e.res # "made" THEN {"good-parts-refused"}
       ELSE If(e.shown # Held(e.cls, e.args, e.mut), "parts-not-kept") \cup
            If(e.kind # (IF e.cls \in Families THEN M(e.mut) \o e.cls
                         ELSE IF e.cls = "from_asset" THEN "asset"
                         ELSE IF e.cls = "from_amount" THEN "value" ELSE e.cls), "wrong-class")
ConvEv(e) ==
  IF e.kind \in {e.cls, "m" \o e.cls}
  THEN If(e.res # "made" \/ e.shown # Hx(M(e.mut) \o e.cls, SerOf[e.cls]), "conversion")
  ELSE If(~Raised(e.res), "converted-what-is-something-else")

Judge(e) == CASE e.k = "ctor" -> CtorEv(e) [] e.k = "conv" -> ConvEv(e)
Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
