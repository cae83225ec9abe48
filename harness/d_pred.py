"""Questions asked about transactions and their parts (C29).

d_pred.py ask OUT
d_pred.py replay|replayids CASES RES
"""
import sys

from elib import *  # noqa
from elib import Gen, Out, observe, outcome, mk_iss, conf, see_tx
import elib

G = Gen(SEED * 6151 + 29)


def word(*fns):
    """One letter per question; what fails to answer is written out."""
    r = [observe(f) for f in fns]
    return ''.join(x if isinstance(x, str) else repr(x) for x in r)


def is_pegin(i):
    if not isinstance(i.is_pegin, bool):
        raise ValueError('is_pegin')
    return i.is_pegin


def answers(tx):
    return {
        'coinbase': observe(lambda: tx.is_coinbase()), 'null': observe(lambda: tx.is_null()),
        'haswit': observe(lambda: tx.has_witness()), 'witnull': observe(lambda: tx.wit.is_null()),
        'issuances': observe(lambda: tx.num_issuances),
        'ins': [word(lambda: i.prevout.is_null(), lambda: i.is_final(), lambda: is_pegin(i),
                     lambda: i.assetIssuance.is_null()) for i in tx.vin],
        'outs': [word(lambda: o.is_null(), lambda: o.is_fee(), lambda: o.is_valid())
                 for o in tx.vout],
        'inwits': [word(lambda: w.is_null()) for w in tx.wit.vtxinwit],
        'outwits': [word(lambda: w.is_null()) for w in tx.wit.vtxoutwit]}


NAMES = ('is_null', 'is_explicit', 'is_commitment', 'is_valid', 'is_fee', 'is_coinbase',
         'is_final', 'is_unspendable', 'is_pegout')


def bare(out, tx):
    objs = [tx, tx.wit] + list(tx.wit.vtxinwit) + list(tx.wit.vtxoutwit)
    for i in tx.vin:
        objs += [i, i.prevout, i.assetIssuance, i.assetIssuance.nAmount,
                 i.assetIssuance.nInflationKeys]
    for o in tx.vout:
        objs += [o, o.nValue, o.nAsset, o.nNonce, o.scriptPubKey]
    for o in objs:
        for n in NAMES:
            if hasattr(type(o), n):
                for t in (lambda: bool(getattr(o, n)), lambda: not getattr(o, n),
                          lambda: getattr(o, n) and True):
                    out.ev(dict(k='bare', cls=type(o).__name__, what=n, res=observe(t)))


def ask(out, tx, how):
    out.ev(dict(k='ask', how=how, tx=see_tx(tx), ans=answers(tx)))


def change(tx):
    """One modification of a mutable transaction."""
    w = G.r.randrange(9)
    if w == 0:
        tx.vin = [mk_in(G.vin(), True) for _ in range(G.pick(0, 1, 1, 2))]
        tx.wit.vtxinwit = []
    elif w == 1:
        tx.vout = [mk_out(G.vout(), True) for _ in range(G.pick(0, 1, 1, 2))]
        tx.wit.vtxoutwit = []
    elif w == 2 and tx.vin:
        i = G.pick(*tx.vin)
        a = G.r.randrange(6)
        if a == 0:
            i.prevout = CElementsMutableOutPoint(G.pick(b'\x00' * 32, G.b(32)),
                                                 G.pick(0xffffffff, 0, 5))
        elif a == 1:
            i.prevout.hash = G.pick(b'\x00' * 32, b'\x00' * 31 + b'\x01', G.b(32))
        elif a == 2:
            i.prevout.n = G.pick(0xffffffff, 0, 0xfffffffe)
        elif a == 3:
            i.nSequence = G.pick(0xffffffff, 0xfffffffe, 0)
        elif a == 4:
            i.is_pegin = G.chance(.5)
        else:
            i.assetIssuance = mk_iss(G.pick(G.NULLISS, G.iss()))
    elif w == 3 and tx.vout:
        o = G.pick(*tx.vout)
        a = G.r.randrange(5)
        if a == 0:
            o.scriptPubKey = CElementsScript(H(G.pick('', '6a', G.script(), '4c', '05aabb')))
        elif a == 1:
            o.nValue = conf(CConfidentialValue, odd(G.cvalue()))
        elif a == 2:
            o.nAsset = conf(CConfidentialAsset, odd(G.casset()))
        elif a == 3:
            o.nNonce = conf(CConfidentialNonce, odd(G.cnonce()))
        else:
            o.nValue = CConfidentialValue(G.pick(0, 1, 21 * 10**14, 21 * 10**14 + 1, 2**63 - 1))
    elif w == 4 and tx.wit.vtxinwit:
        x = G.pick(*tx.wit.vtxinwit)
        a = G.r.randrange(4)
        if a == 0:
            x.issuanceAmountRangeproof = G.pick(b'', b'\x00')
        elif a == 1:
            x.inflationKeysRangeproof = G.pick(b'', b'\x00')
        elif a == 2:
            x.scriptWitness = elib.mk_stack(G.pick([], [''], G.stack()))
        else:
            x.pegin_witness = elib.mk_stack(G.pick([], [''], G.stack()))
    elif w == 5 and tx.wit.vtxoutwit:
        x = G.pick(*tx.wit.vtxoutwit)
        if G.chance(.5):
            x.surjectionproof = G.pick(b'', b'\x00')
        else:
            x.rangeproof = G.pick(b'', b'\x00')
    elif w == 6:
        n = G.pick(True, False)
        tx.wit = elib.mk_wit(dict(inwit=[G.inwit(n or G.chance(.5)) for _ in tx.vin],
                                  outwit=[G.outwit(n or G.chance(.5)) for _ in tx.vout]), True)
    elif w == 7 and tx.vin:
        del tx.vin[-1]
        tx.wit.vtxinwit = []
    elif w == 8 and tx.vout:
        tx.vout.pop()
        tx.wit.vtxoutwit = []


def odd(h):
    return G.pick(h, h, h, 'ff' + h[2:] if h else h)


def ask_events(out):
    for k in range(6000 if THOROUGH else 700):
        t = G.tx()
        if G.chance(.25) and t['vin']:
            t['vin'] = t['vin'][:1]
            t['inwit'] = t['inwit'][:1]
            t['vin'][0] = G.vin(coinbase=True)
        for o in t['vout']:
            if G.chance(.1):
                o.update(asset='', value='', nonce='', script='')
        tx = mk_tx(t, elib.ROUTES[k % len(elib.ROUTES)])
        ask(out, tx, k)
        if k % 3 == 0:
            data = tx.serialize()
            ask(out, G.pick(CElementsTransaction, CElementsMutableTransaction, CTransaction)
                .deserialize(data), k)
        if k < 40:
            bare(out, tx)
        m = tx.to_mutable()
        for _ in range(6):
            change(m)
            ask(out, m, k)
            if G.chance(.3):
                ask(out, m.to_immutable(), k)
            if G.chance(.1):
                m = m.to_mutable()


# ------------------------------------------------------------------ replay
def step(tx, s):
    what, _, how = s.partition('.')
    if s == 'in+default':
        tx.vin.append(CElementsMutableTxIn())
    elif s == 'in+plain':
        tx.vin.append(CElementsMutableTxIn(CElementsMutableOutPoint(b'\x03' * 32, 0)))
    elif s == 'out+blank':
        tx.vout.append(CElementsMutableTxOut())
    elif s == 'out+pays':
        tx.vout.append(CElementsMutableTxOut(
            CConfidentialValue(9), CElementsScript(b'\x51'),
            CConfidentialAsset(CAsset(b'\x05' * 32))))
    elif s == 'inwit+':
        tx.wit.vtxinwit.append(CElementsMutableTxInWitness())
    elif s == 'outwit+':
        tx.wit.vtxoutwit.append(CElementsMutableTxOutWitness())
    elif s == 'in-':
        tx.vin.pop()
    elif s == 'out-':
        tx.vout.pop()
    elif what == 'in':
        i = tx.vin[-1]
        if how[:4] == 'hash':
            i.prevout.hash = b'\x00' * 31 + bytes([int(how[4])])
        elif how[0] == 'n':
            i.prevout.n = 0xffffffff if how == 'n1' else 0
        elif how[:3] == 'seq':
            i.nSequence = 0xffffffff if how == 'seq1' else 0xfffffffe
        elif how == 'pegin':
            i.is_pegin = not i.is_pegin
        else:
            i.assetIssuance = {
                'issA': lambda: CAssetIssuance(nAmount=CConfidentialValue(0)),
                'issT': lambda: CAssetIssuance(
                    nInflationKeys=CConfidentialValue(b'\x09' + b'\x02' * 32)),
                'issN': lambda: CAssetIssuance(Uint256(b'\x01' * 32), Uint256(b'\x01' * 32)),
            }[how]()
    elif what == 'out':
        o = tx.vout[-1]
        f, v = how[:-1], how[-1]
        if f == 'script':
            o.scriptPubKey = CElementsScript({'0': b'', '1': b'\x6a', 'X': b'\x4c'}[v])
        elif f == 'value':
            o.nValue = {'0': lambda: CConfidentialValue(),
                        'C': lambda: CConfidentialValue(b'\x08' + b'\x04' * 32),
                        'M': lambda: CConfidentialValue(21 * 10**14),
                        'L': lambda: CConfidentialValue(21 * 10**14 + 1),
                        'X': lambda: CConfidentialValue(b'\x01' * 33)}[v]()
        elif f == 'asset':
            o.nAsset = CConfidentialAsset({'0': b'', 'C': b'\x0a' + b'\x04' * 32,
                                           'X': b'\x08' + b'\x04' * 32}[v])
        else:
            o.nNonce = CConfidentialNonce({'C': b'\x02' + b'\x04' * 32,
                                           'X': b'\x0a' + b'\x04' * 32}[v])
    elif what == 'inwit':
        w = tx.wit.vtxinwit[-1]
        if how == 'ar':
            w.issuanceAmountRangeproof = b'' if w.issuanceAmountRangeproof else b'\x00'
        elif how == 'kr':
            w.inflationKeysRangeproof = b'' if w.inflationKeysRangeproof else b'\x00'
        elif how == 'sw':
            w.scriptWitness = CScriptWitness([] if w.scriptWitness.stack else [b''])
        else:
            w.pegin_witness = CScriptWitness([] if w.pegin_witness.stack else [b''])
    else:
        w = tx.wit.vtxoutwit[-1]
        if how == 'sp':
            w.surjectionproof = b'' if w.surjectionproof else b'\x00'
        else:
            w.rangeproof = b'' if w.rangeproof else b'\x00'


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        tx = CElementsMutableTransaction() if n % 2 else CMutableTransaction()
        tx.nVersion = 2
        for s in c['hist']:
            step(tx, s)
            if n % 3:
                answers(tx)
        got = answers(tx)
        out.ev(dict(k='ask', hist=c['hist'], ans=got))
        if see_tx(tx) != c['tx']:
            res.write(json.dumps(dict(c, got=see_tx(tx), clause='replay-contents')) + '\n')
        if got != c['ans']:
            res.write(json.dumps(dict(c, got=got, clause='replay-answers')) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def ids(tx):
    return {'ser': observe(tx.serialize), 'txid': observe(tx.GetTxid), 'full': observe(tx.GetHash)}


def counts_ok(tx):
    return len(tx.wit.vtxinwit) in (0, len(tx.vin)) and len(tx.wit.vtxoutwit) in (0, len(tx.vout))


def replay_ids(src, dst):
    """After any history, with questions asked in between or not, of the
    transaction itself, of copies of it and of its parts."""
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        tx = CElementsMutableTransaction() if n % 2 else CMutableTransaction()
        tx.nVersion = 2
        early = None
        for s in c['hist']:
            step(tx, s)
            if n % 3 and counts_ok(tx):
                ids(tx)
                for p in list(tx.vin) + list(tx.vout):
                    observe(p.GetHash), observe(lambda: hash(p))
                early = outcome(tx.to_immutable)[0]
                if early is not None:
                    ids(early), hash(early)
        want = {k: c[k] for k in ('ser', 'txid', 'full')}
        im = tx.to_immutable()
        for what, o in (('', tx), ('-of-copy', im), ('-of-mutable-copy', im.to_mutable()),
                        ('-of-new', mk_tx(c['tx'], elib.ROUTES[n % len(elib.ROUTES)]))):
            got = ids(o)
            out.ev(dict(k='ids', hist=c['hist'], what=what, got=got))
            if got != want:
                res.write(json.dumps(dict(c, got=got, clause='replay-ids' + what)) + '\n')
            if not (o == tx and tx == o and hash(im) == hash(o.to_immutable())):
                res.write(json.dumps(dict(c, got='', clause='replay-equality' + what)) + '\n')
        if early is not None and (early == im) != (early.serialize().hex() == c['ser']):
            res.write(json.dumps(dict(c, got='', clause='replay-equality-of-earlier-copy')) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    setup('elements')
    if sys.argv[1] == 'replay':
        replay(sys.argv[2], sys.argv[3])
        return
    if sys.argv[1] == 'replayids':
        replay_ids(sys.argv[2], sys.argv[3])
        return
    out = Out(sys.argv[2])
    ask_events(out)
    out.close()


main()
