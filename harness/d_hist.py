"""Histories of modifications and queries of a transaction (C04)."""
import sys
from elib import *  # noqa
from elib import Out, Gen, observe, outcome
import elib

G = Gen(SEED * 7919 + 4)


def queries(tx, m):
    """Ask a few things; m is the driver's picture, used only for indices."""
    asks = []

    def ask(q, fn, **kw):
        asks.append(dict(q=q, a=observe(fn), **kw))
    for _ in range(G.pick(1, 2, 3)):
        q = G.pick('txid', 'txid', 'hash', 'hash', 'ser', 'inhash', 'ophash',
                   'outhash', 'inwithash', 'outwithash', 'ctxid', 'chash', 'eq',
                   'eqpart')
        if q == 'txid':
            ask(q, tx.GetTxid)
        elif q == 'hash':
            ask(q, tx.GetHash)
        elif q == 'ser':
            ask(q, tx.serialize)
        elif q in ('inhash', 'ophash') and m['vin']:
            i = G.r.randrange(len(m['vin']))
            ask(q, lambda: (tx.vin[i] if q == 'inhash'
                            else tx.vin[i].prevout).GetHash(), i=i + 1)
        elif q == 'outhash' and m['vout']:
            i = G.r.randrange(len(m['vout']))
            ask(q, lambda: tx.vout[i].GetHash(), i=i + 1)
        elif q == 'inwithash' and m['inwit']:
            i = G.r.randrange(len(m['inwit']))
            ask(q, lambda: tx.wit.vtxinwit[i].GetHash(), i=i + 1)
        elif q == 'outwithash' and m['outwit']:
            i = G.r.randrange(len(m['outwit']))
            ask(q, lambda: tx.wit.vtxoutwit[i].GetHash(), i=i + 1)
        elif q == 'ctxid':
            ask(q, lambda: tx.to_immutable().GetTxid())
        elif q == 'chash':
            ask(q, lambda: G.pick(CElementsTransaction.from_tx,
                                  CTransaction.from_tx)(tx).GetHash())
        elif q == 'eq':
            o = G.pick(m, m, variant(m))
            ot, exc = outcome(mk_tx, o, G.pick(*elib.ROUTES))
            asks.append({'q': 'eq', 'o': json.loads(json.dumps(o)),
                         'a': exc or observe(lambda: tx == ot),
                         'ne': exc or observe(lambda: tx != ot),
                         'h': exc or observe(lambda: hash(tx) == hash(ot))})
        elif q == 'eqpart':
            w = G.pick('in', 'out', 'inwit', 'outwit')
            j = {'in': G.vin, 'out': G.vout, 'inwit': G.inwit,
                 'outwit': G.outwit}[w]()
            y = G.pick(j, tweak_part(w, j))
            mk = {'in': mk_in, 'out': mk_out, 'inwit': mk_inwit,
                  'outwit': mk_outwit}[w]
            a, b = mk(j, G.chance(.5)), mk(y, G.chance(.5), 1)
            asks.append({'q': 'eqpart', 'w': w, 'x': j, 'y': y,
                         'a': observe(lambda: a == b),
                         'h': observe(lambda: hash(a) == hash(b))})
    return asks


def tweak_part(w, j):
    j = json.loads(json.dumps(j))
    k = G.pick(*sorted(j))
    if k == 'iss':
        kk = G.pick(*sorted(j['iss']))
        if j['n'] == 'ffffffff':
            return j
        j['iss'][kk] = G.cvalue('ne') if kk in ('amt', 'keys') else G.h(32)
    elif k == 'pegin':
        if j['n'] != 'ffffffff':
            j['pegin'] = not j['pegin']
    elif k in ('hash',):
        j[k] = G.h(32)
    elif k == 'n':
        if j['n'] != 'ffffffff':
            j[k] = G.h(3) + '01'
    elif k == 'seq':
        j[k] = G.h(4)
    elif k == 'asset':
        j[k] = G.casset()
    elif k == 'value':
        j[k] = G.cvalue()
    elif k == 'nonce':
        j[k] = G.cnonce()
    elif k in ('sw', 'pw'):
        j[k] = G.stack()
    else:
        j[k] = G.h(G.pick(0, 1, 3))
    if w == 'in' and j['n'] == 'ffffff3f':
        j['n'] = 'feffff3f'
    return j


def variant(m):
    o = json.loads(json.dumps(m))
    spots = [('vin', 'in'), ('vout', 'out'), ('inwit', 'inwit'),
             ('outwit', 'outwit')]
    spots = [s for s in spots if o[s[0]]]
    if not spots or G.chance(0.2):
        o[G.pick('ver', 'lock')] = G.h(4)
        return o
    l, w = G.pick(*spots)
    i = G.r.randrange(len(o[l]))
    o[l][i] = tweak_part(w, o[l][i])
    return o


def step(tx, m):
    """One random modification, applied to the object and to the picture."""
    ops = ['ver', 'lock', 'addin', 'addout', 'wit', 'none', 'none']
    if m['vin']:
        ops += ['delin', 'in', 'hash', 'n', 'sig', 'seq', 'pegin', 'iss', 'iss']
    if m['vout']:
        ops += ['delout', 'out', 'asset', 'value', 'nonce', 'spk']
    if m['inwit']:
        ops += ['inwit', 'ar', 'sw']
    if m['outwit']:
        ops += ['outwit', 'rp']
    op = G.pick(*ops)
    s = {'op': op}

    def idx(k):
        i = G.r.randrange(len(m[k]))
        s['i'] = i + 1
        return i
    if op == 'ver':
        s['v'] = m['ver'] = G.ver()
        tx.nVersion = i32(s['v'])
    elif op == 'lock':
        s['v'] = m['lock'] = G.u32()
        tx.nLockTime = u32(s['v'])
    elif op == 'addin':
        s['v'] = G.vin()
        m['vin'].append(s['v'])
        tx.vin.append(mk_in(s['v'], True))
        if m['inwit']:
            m['inwit'].append(G.inwit(True))
        if len(tx.wit.vtxinwit):
            tx.wit.vtxinwit.append(CElementsMutableTxInWitness())
    elif op == 'addout':
        s['v'] = G.vout()
        m['vout'].append(s['v'])
        tx.vout.append(mk_out(s['v'], True))
        if m['outwit']:
            m['outwit'].append(G.outwit(True))
        if len(tx.wit.vtxoutwit):
            tx.wit.vtxoutwit.append(CElementsMutableTxOutWitness())
    elif op == 'delin':
        i = idx('vin')
        del m['vin'][i], tx.vin[i]
        if m['inwit']:
            del m['inwit'][i]
        if len(tx.wit.vtxinwit):
            del tx.wit.vtxinwit[i]
    elif op == 'delout':
        i = idx('vout')
        del m['vout'][i], tx.vout[i]
        if m['outwit']:
            del m['outwit'][i]
        if len(tx.wit.vtxoutwit):
            del tx.wit.vtxoutwit[i]
    elif op == 'in':
        i = idx('vin')
        s['v'] = m['vin'][i] = G.vin()
        tx.vin[i] = mk_in(s['v'], True)
    elif op in ('hash', 'n', 'sig', 'seq', 'pegin', 'iss'):
        i = idx('vin')
        j = m['vin'][i]
        if op == 'hash':
            s['v'] = j['hash'] = G.h(32)
            tx.vin[i].prevout.hash = H(s['v'])
        elif op == 'n':
            # leave coinbase-like inputs alone: they cannot carry flags
            s['v'] = j['n'] if j['n'] == 'ffffffff' else struct.pack(
                '<I', G.r.getrandbits(29)).hex()
            j['n'] = s['v']
            tx.vin[i].prevout.n = u32(s['v'])
        elif op == 'sig':
            s['v'] = j['script'] = G.script()
            tx.vin[i].scriptSig = CElementsScript(H(s['v']))
        elif op == 'seq':
            s['v'] = j['seq'] = G.u32()
            tx.vin[i].nSequence = u32(s['v'])
        elif op == 'pegin':
            s['v'] = j['pegin'] = (j['n'] not in ('ffffffff', 'ffffff3f')
                                   and not j['pegin'])
            tx.vin[i].is_pegin = s['v']
        else:
            s['v'] = j['iss'] = (dict(G.NULLISS) if j['n'] in
                                 ('ffffffff', 'ffffff3f') else G.iss())
            tx.vin[i].assetIssuance = mk_iss(s['v'])
    elif op == 'out':
        i = idx('vout')
        s['v'] = m['vout'][i] = G.vout()
        tx.vout[i] = mk_out(s['v'], True)
    elif op in ('asset', 'value', 'nonce', 'spk'):
        i = idx('vout')
        j = m['vout'][i]
        if op == 'asset':
            s['v'] = j['asset'] = G.casset()
            tx.vout[i].nAsset = conf(CConfidentialAsset, s['v'], 1)
        elif op == 'value':
            s['v'] = j['value'] = G.cvalue()
            tx.vout[i].nValue = conf(CConfidentialValue, s['v'], 1)
        elif op == 'nonce':
            s['v'] = j['nonce'] = G.cnonce()
            tx.vout[i].nNonce = conf(CConfidentialNonce, s['v'])
        else:
            s['v'] = j['script'] = G.script()
            tx.vout[i].scriptPubKey = CElementsScript(H(s['v']))
    elif op == 'wit':
        t = dict(m)
        G.fill_wit(t, G.pick('null', 'both', 'both', 'in', 'out'))
        s['v'] = {'inwit': t['inwit'], 'outwit': t['outwit']}
        m['inwit'] = [dict(w) for w in t['inwit']]
        m['outwit'] = [dict(w) for w in t['outwit']]
        tx.wit = mk_wit(t, True)
    elif op in ('inwit', 'ar', 'sw'):
        i = idx('inwit')
        if op == 'inwit':
            s['v'] = G.inwit()
            m['inwit'][i] = dict(s['v'])
            tx.wit.vtxinwit[i] = mk_inwit(s['v'], True)
        elif op == 'ar':
            s['v'] = m['inwit'][i]['ar'] = G.h(G.pick(0, 1, 9))
            tx.wit.vtxinwit[i].issuanceAmountRangeproof = H(s['v'])
        else:
            s['v'] = m['inwit'][i]['sw'] = G.stack()
            tx.wit.vtxinwit[i].scriptWitness = mk_stack(s['v'])
    elif op in ('outwit', 'rp'):
        i = idx('outwit')
        if op == 'outwit':
            s['v'] = G.outwit()
            m['outwit'][i] = dict(s['v'])
            tx.wit.vtxoutwit[i] = mk_outwit(s['v'], True)
        else:
            s['v'] = m['outwit'][i]['rp'] = G.h(G.pick(0, 1, 9))
            tx.wit.vtxoutwit[i].rangeproof = H(s['v'])
    return s


def main(out):
    setup('elements')
    for k in range(5000 if THOROUGH else 500):
        # witness lists are always in use, so that the picture is exact
        t = G.tx(wit=G.pick('null', 'both', 'in', 'out'))
        m = json.loads(json.dumps(t))
        route = G.pick('mut', 'gmut', 'append', 'im2mut')
        tx = mk_tx(t, route)
        steps = [{'op': 'none', 'asks': queries(tx, m)}]
        for _ in range(G.pick(4, 8, 12)):
            s, exc = outcome(step, tx, m)
            if exc:
                steps.append({'op': 'none', 'asks': [
                    {'q': 'ser', 'a': 'modification failed: ' + exc}]})
                break
            s = json.loads(json.dumps(s))
            s['asks'] = queries(tx, m)
            steps.append(s)
        out.ev({'tx': t, 'route': route, 'steps': steps})
    # immutable objects: the same query repeatedly, in different orders
    for k in range(3000 if THOROUGH else 250):
        t = G.tx()
        route = G.pick('imm', 'gimm', 'mut2im', 'mixed')
        tx = mk_tx(t, route)
        asks = []
        for q in G.r.sample(['txid', 'hash', 'txid', 'hash', 'ser', 'ctxid',
                             'chash', 'hash', 'txid'], 9):
            fn = {'txid': tx.GetTxid, 'hash': tx.GetHash, 'ser': tx.serialize,
                  'ctxid': lambda: tx.to_mutable().GetTxid(),
                  'chash': lambda: tx.to_mutable().to_immutable().GetHash()}[q]
            asks.append({'q': q, 'a': observe(fn)})
        for i in range(len(t['vin'])):
            for _ in (0, 1):
                asks.append({'q': 'inhash', 'i': i + 1,
                             'a': observe(tx.vin[i].GetHash)})
                asks.append({'q': 'ophash', 'i': i + 1,
                             'a': observe(tx.vin[i].prevout.GetHash)})
        for i in range(len(t['vout'])):
            for _ in (0, 1):
                asks.append({'q': 'outhash', 'i': i + 1,
                             'a': observe(tx.vout[i].GetHash)})
        for i in range(len(tx.wit.vtxinwit) if t['inwit'] else 0):
            asks.append({'q': 'inwithash', 'i': i + 1,
                         'a': observe(tx.wit.vtxinwit[i].GetHash)})
        out.ev({'tx': t, 'route': route,
                'steps': [{'op': 'none', 'asks': asks + queries(tx, t)}]})


if __name__ == '__main__':
    o = Out(sys.argv[1])
    main(o)
    o.close()
