------------------------------ MODULE BlechMC ------------------------------
(***************************************************************************)
(* A confidential segwit address is written down, and what is written may  *)
(* be damaged before it is read.  TLC checks that both readings of Bech    *)
(* agree, that undamaged text (either case) is read back, and that every   *)
(* damaged text is refused; every text is printed and replayed.            *)
(***************************************************************************)
EXTENDS Bech, TLC, Json

CONSTANTS Vers, Lens, Subst     \* versions, program lengths, replacement digits per position

Hrp   == Chars("el")
Progs == [n \in Lens |-> [i \in 1..n |-> (i * 37 + n) % 256]]

VARIABLES ver, len, form, text
vars == <<ver, len, form, text>>

Base(v, n) == Encoding("blech", Hrp, v, Progs[n])

Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
Data(v, n) == <<v>> \o To5(Progs[n])
(* set the last padding bits of the data to a non-zero value *)
BadPad(v, n) == LET d == Data(v, n) IN [d EXCEPT ![Len(d)] = @ ^^ 1]

Init == /\ ver \in Vers /\ len \in Lens /\ form = <<"plain">> /\ text = Base(ver, len)
To(f, t) == form' = f /\ text' = t /\ UNCHANGED <<ver, len>>
Next == /\ form = <<"plain">>
        /\ \/ To(<<"upper">>, Upper(text))
           \/ \E i \in 1..Len(text) : text[i] \in 97..122 /\
                To(<<"mixed", i>>, [text EXCEPT ![i] = @ - 32])
           \/ To(<<"mixed", 0>>, [i \in 1..Len(text) |-> IF i <= 2 /\ text[i] \in 97..122
                                                         THEN text[i] - 32 ELSE text[i]])
           \/ \E k \in 1..Len(text) : To(<<"cut", k>>, SubSeq(text, 1, Len(text) - k))
           \/ \E i \in 1..Len(text) : To(<<"drop", i>>, SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text)))
           \/ \E i \in 1..(Len(text) + 1) : To(<<"insert", i>>, SubSeq(text, 1, i - 1) \o <<113>> \o SubSeq(text, i, Len(text)))
           \/ \E i \in 4..Len(text), d \in Subst :
                LET v == (CharVal(text[i]) + d) % 32 IN
                To(<<"subst", i, d>>, [text EXCEPT ![i] = Charset[v + 1]])
           \/ \E i \in 1..Len(text), c \in {98, 105, 111, 49, 33, 45, 32, 127, 233} :
                text[i] # c /\ To(<<"char", i, c>>, [text EXCEPT ![i] = c])
           \/ \E i \in 4..(Len(text) - 1) : text[i] # text[i + 1] /\
                To(<<"swap", i>>, [text EXCEPT ![i] = text[i + 1], ![i + 1] = text[i]])
           \/ To(<<"variant">>, TextOf("blech", Hrp, Data(ver, len),
                                       IF ver = 0 THEN Modif("blech") ELSE Plain("blech")))
           \/ (8 * len) % 5 # 0 /\ To(<<"pad">>, TextOf("blech", Hrp, BadPad(ver, len), FinalFor("blech", ver)))
           \/ To(<<"morepad">>, TextOf("blech", Hrp, Data(ver, len) \o <<0>>, FinalFor("blech", ver)))
           \/ \E v \in {17, 18, 31} : To(<<"version", v>>, TextOf("blech", Hrp, Data(v, len), Modif("blech")))
           \/ \E h \in { Chars("lq"), Chars("ert"), Chars("e"), Chars("ell"), Chars("e1"), Chars("l") } :
                To(<<"hrp", h>>, Encoding("blech", h, ver, Progs[len]))
           \/ \E n \in {0, 1, 73, 74} \cup (IF ver = 0 THEN {20, 32, 52, 54, 64, 66} ELSE {}) :
                To(<<"proglen", n>>, TextOf("blech", Hrp, <<ver>> \o To5([i \in 1..n |-> i]),
                                            FinalFor("blech", ver)))
           \/ To(<<"bech32">>, TextOf("bech", Hrp, Data(ver, len), FinalFor("bech", ver)))

(* text that encoding can produce: these forms only *)
Legit == \/ form[1] \in {"plain", "upper"}
         \/ form[1] = "proglen" /\ form[2] = 73 /\ ver # 0
         \* zero bits appended to the program may make it one byte longer
         \/ form[1] = "morepad" /\ ver # 0 /\ Len(To5(Progs[len] \o <<0>>)) = Len(To5(Progs[len])) + 1
              /\ len < 73
ReadsAgree == Decode("blech", Hrp, text) = DecodeByRemainder("blech", Hrp, text)
Detected   == Decode("blech", Hrp, text).ok <=> Legit
ReadsBack  == form[1] \in {"plain", "upper"} =>
                Decode("blech", Hrp, text) = [ok |-> TRUE, ver |-> ver, prog |-> Progs[len]]
Emit == LET r == Decode("blech", Hrp, text) IN
  PrintT("@C " \o ToJson([k |-> "dec", hrp |-> FromChars(Hrp), s |-> text, form |-> form[1],
     want |-> IF r.ok THEN ToString(r.ver) \o ":" \o B2Hex(r.prog) ELSE "none"]))
=============================================================================
