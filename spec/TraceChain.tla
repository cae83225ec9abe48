---------------------------- MODULE TraceChain ----------------------------
(***************************************************************************)
(* Recorded histories of selections in several threads and contexts, with  *)
(* a look at lanes and at long-lived objects of explicit Elements classes  *)
(* after every step, judged against Chain.                                 *)
(***************************************************************************)
EXTENDS Chain, Taptree, Ids, TraceKit

VARIABLES h, k, st
Steps(n) == Trace[n].steps
If(c, name) == IF c THEN {name} ELSE {}

(* ------------------------------------------------------------- objects *)
(* what is to be seen of an object: pairs of a name and a text.  The parts
   marked "elements" are only looked at while an Elements chain is selected *)
TxClasses(mut) == IF mut THEN {p[2] : p \in {x \in ElementsOnly("elements") : x[1] = "parsedmutable"}}
                  ELSE {p[2] : p \in {x \in ElementsOnly("elements") : x[1] = "parsed"}}
Only(S) == CHOOSE x \in S : TRUE
TxSeen(o) ==
  LET tx == T(o.tx)
      ser == B2Hex(Ser(tx))
      a == [tx |-> tx, spent |-> [i \in 1..Len(tx.vin) |-> TOut(o.tx.vout[1])], idx |-> 0, ht |-> 0,
            leaf |-> LeafHash(LeafVersion, << 81 >>), cs |-> Ones32, annex |-> << >>, gen |-> Rep(5, 32)]
  IN [always |-> { << "cls", Only(TxClasses(o.mut)) >>, << "ser", ser >>, << "txid", B2Hex(TxId(tx)) >>,
                   << "hash", B2Hex(FullHash(tx)) >>,
                   << "again", ser >>, << "againcls", Only(TxClasses(FALSE)) >>,
                   << "mutable", Only(TxClasses(TRUE)) >>, << "mutableser", ser >>,
                   << "immutable", Only(TxClasses(FALSE)) >>, << "immutableser", ser >>,
                   << "newout", "CElementsTxOut CElementsScript" >>, << "newmutout", "CElementsMutableTxOut CElementsScript" >>,
                   << "newin", "CElementsTxIn CElementsOutPoint CElementsScript" >>,
                   << "newwit", "CElementsTxWitness" >> },
      elements |-> { << "legacy", B2Hex(Legacy(<< 81 >>, tx, 0, << 1, 0, 0, 0 >>)) >>,
                     << "v0", B2Hex(V0(<< 81 >>, tx, 0, << 1 >> \o Zeros(8), << 1, 0, 0, 0 >>)) >>,
                     << "tap", B2Hex(Tap(a)) >> }]
AddrSeen(o) ==
  LET a == [net |-> o.net, kind |-> o.kind, conf |-> o.conf, data |-> Hex2B(o.data)]
      t == FromChars(AddrText(a))
      plain == IF a.conf THEN Plainly(a) ELSE a
      c == IF a.conf THEN a ELSE Conf(a, AnyKey)
  IN [always |-> { << "cls", ClassName(a) >>, << "text", t >>, << "read", Show(a) >>,
                   << "spk", B2Hex(PayScript(a)) >>,
                   << "plain", Show(plain) >>, << "plaintext", FromChars(AddrText(plain)) >>,
                   << "fromspk", Show(plain) >>,
                   << "conf", Show(c) >>, << "conftext", FromChars(AddrText(c)) >> },
      elements |-> {}]
(* a wallet key, and extended keys, whose
   74 bytes of data were recorded when they were made *)
KeySeen(o) ==
  LET secret == Hex2B(o.secret) c == Hdr(o.net).cls IN
  [always |-> { << "cls", "C" \o c \o "Key" >>, << "pub", B2Hex(PubOf(secret)) >>,
                << "text", FromChars(KeyText(o.net, "wif", secret \o << 1 >>)) >>,
                << "read", "C" \o c \o "Key:" \o o.secret >>,
                << "extcls", "C" \o c \o "ExtKey" >>, << "childcls", "C" \o c \o "ExtKey" >>,
                << "exttext", FromChars(KeyText(o.net, "xprv", Hex2B(o.ext))) >>,
                << "childtext", FromChars(KeyText(o.net, "xprv", Hex2B(o.child))) >> },
   elements |-> {}]
TreeSeen(o) ==
  LET ls == [i \in 1..Len(o.scripts) |-> [t |-> "s", name |-> "", script |-> Hex2B(o.scripts[i])]]
      root == RootOfTree([t |-> "t", lv |-> 256, leaves |-> ls]) IN
  [always |-> {},
   elements |-> { << "root", B2Hex(root) >>, << "cls", "TaprootElementsScriptTree" >>,
                  << "out", B2Hex(SubSeq(OutputKey(Hex2B(o.key), root), 2, 33)) >> }]
IssSeen(o) ==
  LET e == Entropy(Hex2B(o.hash), Hex2B(o.n), Hex2B(o.contract)) IN
  [always |-> { << "entropy", B2Hex(e) >>, << "asset", B2Hex(AssetOf(e)) >>,
                << "token", B2Hex(TokenOf(e, FALSE)) >>, << "ctoken", B2Hex(TokenOf(e, TRUE)) >> },
   elements |-> {}]
Seen(o) == CASE o.k = "tx" -> TxSeen(o) [] o.k = "addr" -> AddrSeen(o) [] o.k = "key" -> KeySeen(o)
             [] o.k = "tree" -> TreeSeen(o) [] o.k = "iss" -> IssSeen(o)

(* ------------------------------------------------------------ the steps *)
(* st.lanes: lane -> [cur, saved]; st.want: what is to be seen of objects  *)
Result(s, e) ==
  CASE e.op = "start" -> [s EXCEPT !.lanes = Append(@, NewLane(Alias[e.n]))]
    [] e.op = "copy"  -> [s EXCEPT !.lanes = Append(@, NewLane(s.lanes[e.from].cur))]
    [] e.op = "objs"  -> [s EXCEPT !.want = [i \in 1..Len(e.objs) |-> Seen(e.objs[i])]]
    [] e.op = "look"  -> s
    [] e.op = "select" -> [s EXCEPT !.lanes[e.lane] = Select(@, e.n).lane]
    [] e.op = "enter"  -> [s EXCEPT !.lanes[e.lane] = Enter(@, e.n).lane]
    [] e.op \in {"leave", "raise"} -> [s EXCEPT !.lanes[e.lane] = Leave(@).lane]

Outcome(s, e) ==
  CASE e.op = "select" -> Select(s.lanes[e.lane], e.n).out
    [] e.op = "enter"  -> Enter(s.lanes[e.lane], e.n).out
    [] OTHER -> "ok"

Missing(S, rec, tag) ==
  { tag \o p[1] : p \in { x \in S : x[1] \notin DOMAIN rec \/ rec[x[1]] # x[2] } }
LookClauses(r, l) ==
  LET c == r.lanes[l.lane].cur IN
  Missing(View[c], l.view, "generic-") \cup
  UNION { LET o == l.objs[i]
              w == r.want[i] IN
          Missing(w.always, o, "object-") \cup
          (IF IsElements(c) THEN Missing(w.elements, o, "object-") ELSE {})
          : i \in 1..Len(l.objs) }
Judge(s, e) ==
  LET r == Result(s, e) IN
  If(Outcome(s, e) = "ok" /\ e.out # "ok", e.op \o "-refused") \cup
  If(Outcome(s, e) = "unknown" /\ e.out # "!ValueError", "unknown-chain-accepted") \cup
  UNION { LookClauses(r, e.looks[i]) : i \in 1..Len(e.looks) }

Empty == [lanes |-> << >>, want |-> << >>]
Init == h \in 1..Len(Trace) /\ k = 0 /\ st = << Empty, Empty >>
Next == /\ k < Len(Steps(h))
        /\ k' = k + 1
        /\ st' = << st[2], Result(st[2], Steps(h)[k + 1]) >>
        /\ UNCHANGED h
Conforms == k > 0 => Report(h, Judge(st[1], Steps(h)[k]))
=============================================================================
