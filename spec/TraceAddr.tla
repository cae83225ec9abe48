----------------------------- MODULE TraceAddr -----------------------------
(* Recorded address operations judged against Address and Bech.             *)
EXTENDS Address, TraceKit

VARIABLE pos
If(c, name) == IF c THEN {name} ELSE {}
Raised(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = "!"
Str(s) == FromChars(s)

(* ---- C11: e.s is a sequence of character codes *)
DecWant(e) == LET r == Decode("blech", Chars(e.hrp), e.s)
              IN IF r.ok THEN ToString(r.ver) \o ":" \o B2Hex(r.prog) ELSE "none"
DecEv(e) == LET w == DecWant(e) IN
  IF DecodeByRemainder("blech", Chars(e.hrp), e.s) # Decode("blech", Chars(e.hrp), e.s)
  THEN {"specification-disagrees-with-itself"}
  ELSE If(e.res # w, "decode") \cup If(e.cls # w, "decode-by-class")
EncEv(e) == LET p == Hex2B(e.prog)
                w == IF GoodProgram("blech", e.ver, p) /\ Fits("blech", Chars(e.hrp), p) THEN Str(Encoding("blech", Chars(e.hrp), e.ver, p))
                     ELSE "none" IN
  If(e.res # w, "encode") \cup If(e.cls # w, "encode-by-class")

(* ---- C10 *)
MkEv(e) ==
  LET plain == [net |-> e.net, kind |-> e.kind, conf |-> FALSE, data |-> Hex2B(e.payload)]
      c     == Conf(plain, Hex2B(e.pub))
      spk   == B2Hex(PayScript(plain)) IN
  If(e.plain # Show(plain) \/ e.plaintext # Str(AddrText(plain)), "plain-address") \cup
  If(e.conf # Show(c), "confidential-address-class-or-contents") \cup
  If(e.text # Str(AddrText(c)), "confidential-address-text") \cup
  If(e.back # Show(c), "text-does-not-read-back") \cup
  If(e.equal # "T", "text-does-not-read-back-equal") \cup
  If(e.unconf # Show(plain), "unconfidential-address") \cup
  If(e.pubback # e.pub, "blinding-key") \cup
  If(e.spk # spk \/ e.spkplain # spk, "output-script") \cup
  If(e.redeem # e.redeemplain, "redeem-script") \cup
  If(e.plain2 # e.plain, "plain-address-changed")
MemEv(e) ==
  LET p     == Hex2B(e.pub)
      plain == [net |-> e.net, kind |-> e.kind, conf |-> FALSE,
                data |-> SubSeq(p, 2, 1 + PayloadLen(e.kind))]
      both  == { a \in {plain, Conf(plain, p)} : Show(a) = e.what } IN
  IF both = {} THEN {"address-class-or-contents"}
  ELSE LET a == CHOOSE x \in both : TRUE IN
       UNION { LET c == e.of[j]
                   w == IF Member(c, a) THEN "T" ELSE "F"
               IN If(c.inst # w \/ c.sub # w, "address-counted-to-the-wrong-classes")
               : j \in 1..Len(e.of) }
RefEv(e) == If(~Raised(e.res), e.what)

(* ---- C12: e.res is a sequence of [net, kind, enc, conf, out] *)
StrEv(e) ==
  LET d == Denotes(e.s) IN
  IF \E a, b \in d : a # b THEN {"specification-ambiguous"}
  ELSE UNION { LET c == e.res[k]
                   t == { a \in d : Takes(c, a, e.active) }
               IN IF t = {} THEN If(~Raised(c.out), "foreign-string-accepted")
                  ELSE LET a == CHOOSE x \in t : TRUE
                       IN IF Dormant(c, e.active) /\ Raised(c.out) THEN {}
                          ELSE If(c.out # Show(a), "own-string-not-read-back")
               : k \in 1..Len(e.res) }
       \cup If(e.origin # "" /\ d = {}, "produced-string-unknown-to-specification")
(* e.origin: what the string was made from, where it was made by an address object *)
SpkEv(e) ==
  LET k == KindOf(Hex2B(e.script)) IN
  UNION { LET c == e.res[j]
              n == IF c.net = "any" THEN e.active ELSE c.net
              a == [net |-> n, kind |-> k, conf |-> FALSE,
                    data |-> IF k = "none" THEN <<>>
                             ELSE LET s == Hex2B(e.script)
                                      o == IF k = "p2pkh" THEN 3 ELSE 2
                                  IN SubSeq(s, o + 1, o + PayloadLen(k))] IN
          IF c.conf = "conf" \/ k = "none" \/ ~Takes(c, a, e.active)
          THEN If(~Raised(c.out), "foreign-script-accepted")
          ELSE IF Dormant(c, e.active) /\ Raised(c.out) THEN {}
               ELSE If(c.out # Show(a), "script-not-mapped-to-its-address")
          : j \in 1..Len(e.res) }
(* an address built from bytes; e.ver is the witness version given, or -1 *)
RawEv(e) ==
  LET a == [net |-> e.net, kind |-> e.kind, conf |-> e.conf, data |-> Hex2B(e.data)]
      fits == /\ Len(a.data) = DataLen(e.kind, e.conf)
              /\ e.ver \in {-1, WitVer(e.kind)}
  IN IF fits THEN If(e.res # Show(a), "own-bytes-not-taken")
     ELSE If(~Raised(e.res), "bytes-of-another-kind-accepted")
KeyEv(e) ==
  LET d == KeyNet(e.s) IN
  UNION { LET c == e.res[j]
              n == IF c.net = "any" THEN e.active ELSE c.net
          IN IF <<n, c.what>> \in d
             THEN If(c.out # Hdr(n).cls \o c.what \o ":" \o B2Hex(KeyData(c.what, B58Body(e.s)))
                     \/ c.text # Str(e.s), "own-key-string-not-read-back")
             ELSE If(~Raised(c.out), "foreign-key-string-accepted")
          : j \in 1..Len(e.res) }
       \cup If(e.net # "" /\ Str(e.s) # Str(KeyText(e.net, e.what, Hex2B(e.data))), "key-text")

Judge(e) == CASE e.k = "dec" -> DecEv(e) [] e.k = "enc" -> EncEv(e) [] e.k = "mk" -> MkEv(e)
              [] e.k = "mem" -> MemEv(e) [] e.k = "ref" -> RefEv(e) [] e.k = "str" -> StrEv(e) [] e.k = "spk" -> SpkEv(e)
              [] e.k = "key" -> KeyEv(e) [] e.k = "raw" -> RawEv(e)

Init == \E k \in 1..NChunks : pos \in Lane(k)
Next == pos + NChunks <= Len(Trace) /\ pos' = pos + NChunks
Conforms == Report(pos, Judge(Trace[pos]))
=============================================================================
