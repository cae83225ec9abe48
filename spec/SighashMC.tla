----------------------------- MODULE SighashMC -----------------------------
(***************************************************************************)
(* What each digest commits to.  TLC enumerates every digest kind, hash    *)
(* type, input index, shape of the transaction and every single-field      *)
(* change, and checks that the digest changes exactly when the table of    *)
(* committed fields says so.  Every case is printed with its digest and    *)
(* replayed into the implementation.                                       *)
(***************************************************************************)
EXTENDS Sighash, TLC, Json, IOUtils

CONSTANTS Kind        \* set of digest kinds to enumerate

H(x) == Rep(x, 32)
Iss  == [nonce |-> H(3), entropy |-> H(4), amt |-> <<1>> \o Zeros(7) \o <<9>>,
         keys |-> <<8>> \o H(5)]
In0(x, iss, peg) == [hash |-> H(x), n |-> <<x, 0, 0, 0>>, script |-> <<81, x>>,
                     seq |-> <<x, 255, 255, 255>>, pegin |-> peg,
                     iss |-> IF iss THEN Iss ELSE NullIss]
Out0(x) == [asset |-> <<1>> \o H(x), value |-> <<9>> \o H(x), nonce |-> <<2>> \o H(x),
            script |-> <<118, x>>]
IW(x) == [ar |-> <<x>>, kr |-> <<x, x>>, sw |-> << <<x>> >>, pw |-> << <<>> >>]
OW(x) == [sp |-> <<x>>, rp |-> <<x, 1>>]

(* shape: [iss1, iss2, peg : BOOLEAN, nout : 1..2, wit : BOOLEAN] *)
Shapes == [iss1 : BOOLEAN, iss2 : BOOLEAN, peg : BOOLEAN, nout : 1..2, wit : BOOLEAN]
BaseTx(s) == [ver |-> <<2, 0, 0, 0>>, lock |-> <<1, 2, 3, 240>>,
              vin |-> << In0(21, s.iss1, s.peg), In0(22, s.iss2, ~s.peg) >>,
              vout |-> [k \in 1..s.nout |-> Out0(30 + k)],
              inwit |-> IF s.wit THEN << IW(41), IW(42) >> ELSE <<>>,
              outwit |-> IF s.wit THEN [k \in 1..s.nout |-> OW(50 + k)] ELSE <<>>]

(* everything a digest can depend on *)
BaseU(s) == [tx |-> BaseTx(s), spent |-> << Out0(61), Out0(62) >>,
             script |-> <<172, 81>>, amt |-> <<1>> \o Zeros(6) \o <<1, 1>>,
             cs |-> <<255, 255, 255, 255>>, annex |-> H(71), gen |-> H(72)]

InF  == {"hash", "n", "seq", "script", "pegin", "iss.nonce", "iss.entropy", "iss.amt", "iss.keys"}
OutF == {"asset", "value", "nonce", "script"}
IWF  == {"ar", "kr", "sw", "pw"}
OWF  == {"sp", "rp"}
Fields == {<<"none">>, <<"ver">>, <<"lock">>, <<"script">>, <<"amt">>, <<"cs">>, <<"annex">>,
           <<"noannex">>, <<"gen">>, <<"addin">>, <<"addout">>, <<"sep">>}
          \cup ({"in"} \X {1, 2} \X InF) \cup ({"out"} \X {1, 2} \X OutF)
          \cup ({"iw"} \X {1, 2} \X IWF) \cup ({"ow"} \X {1, 2} \X OWF)
          \cup ({"spent"} \X {1, 2} \X OutF)

Bump(b) == [b EXCEPT ![Len(b)] = (@ + 1) % 256]
BumpSeqs(ss) == [ss EXCEPT ![1] = <<99>> \o @]
ChIn(i, f) == CASE f = "hash" -> [i EXCEPT !.hash = Bump(@)]
                [] f = "n" -> [i EXCEPT !.n = Bump(@)]
                [] f = "seq" -> [i EXCEPT !.seq = Bump(@)]
                [] f = "script" -> [i EXCEPT !.script = Bump(@)]
                [] f = "pegin" -> [i EXCEPT !.pegin = ~@]
                [] f = "iss.nonce" -> [i EXCEPT !.iss.nonce = Bump(@)]
                [] f = "iss.entropy" -> [i EXCEPT !.iss.entropy = Bump(@)]
                [] f = "iss.amt" -> [i EXCEPT !.iss.amt = Bump(@)]
                [] f = "iss.keys" -> [i EXCEPT !.iss.keys = Bump(@)]
ChOut(o, f) == CASE f = "asset" -> [o EXCEPT !.asset = Bump(@)]
                 [] f = "value" -> [o EXCEPT !.value = Bump(@)]
                 [] f = "nonce" -> [o EXCEPT !.nonce = Bump(@)]
                 [] f = "script" -> [o EXCEPT !.script = Bump(@)]
ChIW(w, f) == CASE f = "ar" -> [w EXCEPT !.ar = Bump(@)] [] f = "kr" -> [w EXCEPT !.kr = Bump(@)]
                [] f = "sw" -> [w EXCEPT !.sw = BumpSeqs(@)] [] f = "pw" -> [w EXCEPT !.pw = BumpSeqs(@)]
ChOW(w, f) == IF f = "sp" THEN [w EXCEPT !.sp = Bump(@)] ELSE [w EXCEPT !.rp = Bump(@)]

(* the change applies to this shape *)
Applies(s, f) ==
  CASE f[1] = "in" -> f[3] \in {"iss.nonce", "iss.entropy", "iss.amt", "iss.keys"}
                        => (IF f[2] = 1 THEN s.iss1 ELSE s.iss2)
    [] f[1] = "out" -> f[2] <= s.nout
    [] f[1] = "iw" -> s.wit
    [] f[1] = "ow" -> s.wit /\ f[2] <= s.nout
    [] f[1] \in {"addin", "addout"} -> ~s.wit
    [] OTHER -> TRUE
Change(u, f) ==
  CASE f[1] = "none" -> u
    [] f[1] = "ver" -> [u EXCEPT !.tx.ver = Bump(@)]
    [] f[1] = "lock" -> [u EXCEPT !.tx.lock = Bump(@)]
    [] f[1] = "script" -> [u EXCEPT !.script = Append(@, 82)]
    [] f[1] = "sep" -> [u EXCEPT !.script = <<171>> \o @]
    [] f[1] = "amt" -> [u EXCEPT !.amt = Bump(@)]
    [] f[1] = "cs" -> [u EXCEPT !.cs = <<5, 0, 0, 0>>]
    [] f[1] = "annex" -> [u EXCEPT !.annex = Bump(@)]
    [] f[1] = "noannex" -> [u EXCEPT !.annex = <<>>]
    [] f[1] = "gen" -> [u EXCEPT !.gen = Bump(@)]
    [] f[1] = "addin" -> [u EXCEPT !.tx.vin = Append(@, In0(23, FALSE, FALSE)),
                                   !.spent = Append(@, Out0(63))]
    [] f[1] = "addout" -> [u EXCEPT !.tx.vout = Append(@, Out0(33))]
    [] f[1] = "in" -> [u EXCEPT !.tx.vin[f[2]] = ChIn(@, f[3])]
    [] f[1] = "out" -> [u EXCEPT !.tx.vout[f[2]] = ChOut(@, f[3])]
    [] f[1] = "iw" -> [u EXCEPT !.tx.inwit[f[2]] = ChIW(@, f[3])]
    [] f[1] = "ow" -> [u EXCEPT !.tx.outwit[f[2]] = ChOW(@, f[3])]
    [] f[1] = "spent" -> [u EXCEPT !.spent[f[2]] = ChOut(@, f[3])]

(* ---- the table: is field f committed to, for input idx (0-based)? ---- *)
Committed(kind, t, idx, s, f) ==
  LET base == CASE t % 32 = 2 -> "none" [] t % 32 = 3 -> "single" [] OTHER -> "all"
      acp  == t >= 128
      me(k) == k = idx + 1
      tap  == kind \in {"key", "leaf"}
      leg  == kind = "legacy"
  IN CASE f[1] = "none" -> FALSE
       [] f[1] \in {"ver", "lock"} -> TRUE
       [] f[1] = "script" -> kind # "key"
       [] f[1] = "sep" -> kind \in {"v0", "leaf"}
       [] f[1] = "amt" -> kind = "v0"
       [] f[1] = "cs" -> kind = "leaf"
       [] f[1] \in {"annex", "noannex", "gen"} -> tap
       [] f[1] = "addin" -> ~acp
       \* with SINGLE, adding an output counts when it is the one signed for
       [] f[1] = "addout" -> base = "all" \/ (base = "single" /\ idx = s.nout)
       [] f[1] = "in" ->
            LET seen == ~acp \/ me(f[2]) IN
            (CASE f[3] \in {"hash", "n"} -> seen
               [] f[3] = "script" -> FALSE
               [] f[3] = "pegin" -> tap /\ seen
               [] f[3] = "seq" -> IF tap THEN seen
                                  ELSE me(f[2]) \/ (~acp /\ base = "all")
               [] OTHER -> seen)
       [] f[1] = "out" -> base = "all" \/ (base = "single" /\ me(f[2]))
       [] f[1] = "iw" -> tap /\ f[3] \in {"ar", "kr"} /\
                         (~acp \/ (me(f[2]) /\ (IF f[2] = 1 THEN s.iss1 ELSE s.iss2)))
       [] f[1] = "ow" -> tap /\ (base = "all" \/ (base = "single" /\ me(f[2])))
       [] f[1] = "spent" -> tap /\ f[3] # "nonce" /\ (~acp \/ me(f[2]))

(* ------------------------------------------------------------ the system *)
HT4(t) == <<t, 0, 0, 0>>
Types(k) == IF k \in {"key", "leaf"} THEN TapTypes ELSE {0, 1, 2, 3, 34, 129, 130, 131}
TapArgOf(k, u, t, idx) == [tx |-> u.tx, spent |-> u.spent, idx |-> idx, ht |-> t,
                           leaf |-> IF k = "leaf" THEN LeafHash(LeafVersion, u.script) ELSE <<>>,
                           cs |-> u.cs, annex |-> u.annex, gen |-> u.gen]
Defined(k, u, t, idx) == CASE k = "legacy" -> LegacyDefined(u.tx, idx, HT4(t))
                           [] k = "v0" -> TRUE
                           [] OTHER -> TapDefined(TapArgOf(k, u, t, idx))
Pre(k, u, t, idx) == CASE k = "legacy" -> LegacyPre(u.script, u.tx, idx, HT4(t))
                       [] k = "v0" -> V0Pre(u.script, u.tx, idx, u.amt, HT4(t))
                       [] OTHER -> LET a == TapArgOf(k, u, t, idx) IN a.gen \o TapPre(a)
Digest(k, u, t, idx) == CASE k = "legacy" -> Legacy(u.script, u.tx, idx, HT4(t))
                          [] k = "v0" -> V0(u.script, u.tx, idx, u.amt, HT4(t))
                          [] OTHER -> Tap(TapArgOf(k, u, t, idx))

VARIABLES shape, kind, type, idx, field

vars == <<shape, kind, type, idx, field>>
Init == shape \in Shapes /\ kind \in Kind /\ type = -1 /\ idx = 0 /\ field = <<"none">>
Next == /\ type = -1
        /\ type' \in Types(kind) /\ idx' \in {0, 1}
        /\ field' \in { f \in Fields : Applies(shape, f) }
        /\ UNCHANGED <<shape, kind>>

U  == Change(BaseU(shape), field)
Ok == type # -1 /\ Defined(kind, BaseU(shape), type, idx) /\ Defined(kind, U, type, idx)

CommitsExactly ==
  Ok => (Pre(kind, U, type, idx) # Pre(kind, BaseU(shape), type, idx))
        = Committed(kind, type, idx, shape, field)
InDomain == WF(U.tx)
Emit == type # -1 =>
  PrintT("@C " \o ToJson([kind |-> kind, ht |-> type, idx |-> idx, field |-> field,
     tx |-> J(U.tx), spent |-> [k \in 1..Len(U.spent) |-> JOut(U.spent[k])],
     script |-> B2Hex(U.script), amt |-> B2Hex(U.amt), cs |-> B2Hex(U.cs),
     annex |-> B2Hex(U.annex), gen |-> B2Hex(U.gen),
     want |-> IF Defined(kind, U, type, idx) THEN B2Hex(Digest(kind, U, type, idx)) ELSE "!"]))
=============================================================================
