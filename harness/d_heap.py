"""Histories of building, converting, naming and modifying (C05)."""
import sys
from elib import *  # noqa
from elib import Out, Gen, outcome, _b, _u32, ab_iss
from bitcointx.core import CTransaction as GTx

G = Gen(SEED * 6007 + 5)
CLS = {'tx': (CElementsTransaction, CElementsMutableTransaction),
       'in': (CElementsTxIn, CElementsMutableTxIn),
       'out': (CElementsTxOut, CElementsMutableTxOut),
       'op': (CElementsOutPoint, CElementsMutableOutPoint),
       'wit': (CElementsTxWitness, CElementsMutableTxWitness),
       'inwit': (CElementsTxInWitness, CElementsMutableTxInWitness),
       'outwit': (CElementsTxOutWitness, CElementsMutableTxOutWitness)}
GEN = {'tx': (CTransaction, CMutableTransaction), 'in': (CTxIn, CMutableTxIn),
       'out': (CTxOut, CMutableTxOut), 'op': (COutPoint, CMutableOutPoint),
       'wit': (CTxWitness, CMutableTxWitness),
       'inwit': (CTxInWitness, CMutableTxInWitness),
       'outwit': (CTxOutWitness, CMutableTxOutWitness)}
FROM = {'tx': 'from_tx', 'in': 'from_txin', 'out': 'from_txout',
        'op': 'from_outpoint', 'wit': 'from_witness',
        'inwit': 'from_txin_witness', 'outwit': 'from_txout_witness'}
ATTR = {'ver': 'nVersion', 'lock': 'nLockTime', 'vin': 'vin', 'vout': 'vout',
        'wit': 'wit', 'prevout': 'prevout', 'seq': 'nSequence',
        'iss': 'assetIssuance', 'pegin': 'is_pegin', 'asset': 'nAsset',
        'value': 'nValue', 'nonce': 'nNonce', 'hash': 'hash', 'n': 'n',
        'inwit': 'vtxinwit', 'outwit': 'vtxoutwit', 'ar': 'issuanceAmountRangeproof',
        'kr': 'inflationKeysRangeproof', 'sw': 'scriptWitness',
        'pw': 'pegin_witness', 'sp': 'surjectionproof', 'rp': 'rangeproof'}
LEAVES = {'tx': ['ver', 'lock'], 'in': ['script', 'seq', 'iss', 'pegin'],
          'out': ['asset', 'value', 'nonce', 'script'], 'op': ['hash', 'n'],
          'wit': [], 'inwit': ['ar', 'kr', 'sw', 'pw'], 'outwit': ['sp', 'rp']}
REFS = {'tx': {'wit': 'wit'}, 'in': {'prevout': 'op'}}
LISTS = {'tx': {'vin': 'in', 'vout': 'out'},
         'wit': {'inwit': 'inwit', 'outwit': 'outwit'}}


def attr(k, x):
    if x == 'script':
        return 'scriptSig' if k == 'in' else 'scriptPubKey'
    return ATTR[x]


def kind(o):
    for k, (c, _) in CLS.items():
        if isinstance(o, c):
            return k


# ------------------------------------------------------------------ reading
def leaf(x, v):
    if x in ('ver', 'lock', 'seq', 'n'):
        return struct.pack('<i' if x == 'ver' else '<I', v).hex()
    if x == 'pegin':
        if not isinstance(v, bool):
            raise TypeError
        return v
    if x == 'iss':
        return ab_iss(v)
    if x in ('asset', 'value', 'nonce'):
        return _b(v.commitment)
    if x in ('sw', 'pw'):
        return [_b(e) for e in v.stack]
    return _b(v)


def view(o, k):
    try:
        m = o.is_mutable()
        if (type(o) is not CLS[k][1 if m else 0] or o.is_immutable() == m):
            return {'m': 'class ' + type(o).__name__}
        d = {'m': 'mut' if m else 'imm'}
        for x in LEAVES[k]:
            d[x] = leaf(x, getattr(o, attr(k, x)))
        for x, kk in REFS.get(k, {}).items():
            d[x] = view(getattr(o, attr(k, x)), kk)
        for x, kk in LISTS.get(k, {}).items():
            v = getattr(o, attr(k, x))
            if type(v) is not (list if m else tuple):
                return {'m': 'list type'}
            d[x] = [view(e, kk) for e in v]
        return d
    except Exception as e:
        return {'m': '!' + type(e).__name__}


# ------------------------------------------------------------------ writing
class Buffers:
    """Buffers handed over to the code, to be spoiled after the call."""

    def __init__(self):
        self.all = []

    def b(self, s):
        if G.chance(0.4):
            b = bytearray(H(s))
            self.all.append(b)
            return b
        return H(s)

    def l(self, xs):
        if G.chance(0.3):
            return tuple(xs)
        xs = list(xs)
        self.all.append(xs)
        return xs

    def spoil(self):
        for b in self.all:
            if isinstance(b, list):
                b.reverse()
                b += [None]
                if G.chance(0.5):
                    b.clear()
            else:
                for i in range(len(b)):
                    b[i] ^= 0x5a
                b += b'\x01'


def value(x, v, B, k=None, setting=False):
    if x in ('ver', 'lock', 'seq', 'n'):
        return i32(v) if x == 'ver' else u32(v)
    if x == 'pegin':
        return v
    if x == 'iss':
        return CAssetIssuance(
            Uint256(B.b(v['nonce'] or '00' * 32)), Uint256(B.b(v['entropy'] or '00' * 32)),
            CConfidentialValue(B.b(v['amt'])), CConfidentialValue(B.b(v['keys'])))
    if x in ('asset', 'value', 'nonce'):
        return {'asset': CConfidentialAsset, 'value': CConfidentialValue,
                'nonce': CConfidentialNonce}[x](B.b(v))
    if x in ('sw', 'pw'):
        return CScriptWitness(B.l([B.b(e) for e in v]))
    if x == 'script':
        if setting:
            return CElementsScript(B.b(v))
        b = B.b(v)
        return CElementsScript(b) if G.chance(.5) or isinstance(b, bytearray) else CScript(b)
    return H(v) if setting else B.b(v)


def make(k, m, f, B):
    """Construct an object of kind k from field objects / texts f."""
    c = (CLS if G.chance(.7) else GEN)[k][1 if m else 0]
    if k == 'tx':
        return c(B.l(f['vin']), B.l(f['vout']), u32(f['lock']), i32(f['ver']), f['wit'])
    if k == 'in':
        return c(f['prevout'], value('script', f['script'], B), u32(f['seq']),
                 value('iss', f['iss'], B), f['pegin'])
    if k == 'out':
        return c(value('value', f['value'], B), value('script', f['script'], B),
                 value('asset', f['asset'], B), value('nonce', f['nonce'], B))
    if k == 'op':
        return c(B.b(f['hash']), u32(f['n']))
    if k == 'wit':
        return c(B.l(f['inwit']), B.l(f['outwit']))
    if k == 'inwit':
        return c(value('sw', f['sw'], B), B.b(f['ar']), B.b(f['kr']),
                 value('pw', f['pw'], B))
    return c(B.b(f['sp']), B.b(f['rp']))


def load(k, v, B):
    """Object from scratch showing exactly v."""
    m = v['m'] == 'mut'
    f = {x: v[x] for x in LEAVES[k]}
    for x, kk in REFS.get(k, {}).items():
        f[x] = load(kk, v[x], B)
    for x, kk in LISTS.get(k, {}).items():
        f[x] = [load(kk, e, B) for e in v[x]]
    if k == 'op':
        f['hash'] = (f['hash'] * 32)[:64]
    if k == 'tx' and m:
        o = CElementsMutableTransaction()
        o.nVersion, o.nLockTime = i32(f['ver']), u32(f['lock'])
        o.vin, o.vout, o.wit = f['vin'], f['vout'], f['wit']
        return o
    return make(k, m, f, B)


def convert(o, k, m):
    ways = [lambda: (o.to_mutable if m else o.to_immutable)(),
            lambda: CLS[k][1 if m else 0].from_instance(o),
            lambda: getattr(CLS[k][1 if m else 0], FROM[k])(o),
            lambda: getattr(GEN[k][1 if m else 0], FROM[k])(o)]
    if o.is_mutable() == m:
        ways += [o.clone, o.clone]
    elif k != 'tx':
        # (a mutable copy of a transaction gets places for witnesses)
        ways.append(lambda: CLS[k][1 if m else 0].from_instance(o.clone()))
    if k in ('out', 'op', 'outwit', 'inwit'):
        ways.append(lambda: CLS[k][1 if m else 0].deserialize(o.serialize()))
    return G.pick(*ways)()


def poke(o, k):
    """Ways to change what is held inside: none may work."""
    w = []

    def held(v, *names):
        for nm in names:
            if G.chance(.5):
                w.append(lambda: setattr(v, nm, getattr(v, nm)))
            else:
                w.append(lambda: delattr(v, nm))
        w.append(lambda: setattr(v, 'some_new_field', 1))
    for x in LEAVES[k]:
        v = getattr(o, attr(k, x))
        if x in ('asset', 'value', 'nonce'):
            held(v, 'commitment')
        elif x == 'iss':
            held(v, 'assetBlindingNonce', 'assetEntropy', 'nAmount', 'nInflationKeys')
            held(v.nAmount, 'commitment')
            held(v.assetEntropy, 'data')
        elif x in ('sw', 'pw'):
            held(v, 'stack')
            if len(v.stack):
                w.append(lambda v=v: v.stack.__setitem__(0, b''))
        elif isinstance(v, bytes) and len(v):
            def item(v=v):
                v[0] = 1
            w.append(item)
    return w


def bad_build():
    B = Buffers()
    return G.pick(
        lambda: CElementsMutableTxIn(CElementsOutPoint(b'1' * 32, 0), CElementsScript(),
                                     0, None),
        lambda: CElementsMutableTxOut(5),
        lambda: CElementsMutableTxOut(CConfidentialValue(5), 'x'),
        lambda: CElementsMutableTransaction([None]),
        lambda: CElementsMutableTransaction([], [5]),
        lambda: CElementsMutableTxWitness([5]),
        lambda: CElementsMutableOutPoint(B.b('11'), 0),
        lambda: CElementsMutableTxInWitness(5),
        lambda: CElementsMutableTxOutWitness('x'),
        lambda: CElementsMutableTransaction.deserialize(b'\x02'),
        lambda: CElementsMutableTransaction.from_tx(5))()


class World:
    def __init__(self):
        self.roots = []
        self.kinds = []
        self.bufs = {}
        self.keep = []

    def at(self, r, p):
        o, k = self.roots[r - 1], self.kinds[r - 1]
        for s in p:
            o = getattr(o, attr(k, s['f']))
            if s['i']:
                o = o[s['i'] - 1]
                k = LISTS[k][s['f']]
            else:
                k = REFS[k][s['f']]
        return o, k

    def ref(self, s):
        return self.at(s['r'], s['p'])[0]

    def step(self, o):
        """Perform one operation; returns its outcome."""
        B = Buffers()
        new = None
        try:
            if o['op'] == 'bad':
                bad_build()
            elif o['op'] == 'init':
                new = (load(o['k'], o['v'], B), o['k'])
            elif o['op'] == 'new':
                f = {x: o['f'][x] for x in LEAVES[o['k']]}
                for x in REFS.get(o['k'], {}):
                    f[x] = self.ref(o['f'][x])
                for x in LISTS.get(o['k'], {}):
                    f[x] = [self.ref(e) for e in o['f'][x]]
                new = (make(o['k'], o['m'], f, B), o['k'])
            else:
                me, k = self.at(o['r'], o['p'])
                op = o['op']
                if op == 'conv':
                    new = (convert(me, k, o['m']), k)
                elif op == 'get':
                    new = (me, k)
                elif op == 'poke':
                    worked = 0
                    for f in poke(me, k):
                        worked += outcome(f)[1] is None
                    if not worked:
                        return 'refused'
                elif op == 'drop':
                    a = attr(k, o['x'])
                    worked = 0
                    for f in (lambda: delattr(me, a), lambda: setattr(me, 'some_new_field', 1),
                              lambda: setattr(me, a, getattr(me, a))):
                        worked += outcome(f)[1] is None
                    if not worked:
                        return 'refused'
                elif op == 'set':
                    v = value(o['x'], o['v'], B, k, True)
                    if o.get('b'):
                        v = bytearray(v)
                        setattr(me, attr(k, o['x']), v)
                        self.bufs[id(me), o['x']] = v
                        self.keep.append(me)    # its id stays taken
                    else:
                        setattr(me, attr(k, o['x']), v)
                        self.bufs.pop((id(me), o['x']), None)
                elif op == 'buf':
                    b = self.bufs[id(me), o['x']]
                    b[:] = H(o['v'])
                elif op == 'put':
                    setattr(me, attr(k, o['x']), self.ref(o['s']))
                else:
                    l = getattr(me, attr(k, o['x']))
                    a = attr(k, o['x'])
                    if op == 'del':
                        i = o['i'] - 1
                        if G.chance(.5):
                            del l[i]
                        else:
                            l.pop(i)
                    else:
                        v = self.ref(o['s'])
                        if op == 'repl':
                            l[o['i'] - 1] = v
                        else:
                            w = G.r.randrange(4)
                            if w == 0:
                                l.append(v)
                            elif w == 1:
                                l.insert(len(l), v)
                            elif w == 2:
                                setattr(me, a, list(l) + [v])
                            else:
                                l += type(l)([v])
                                setattr(me, a, l)
        except Exception as e:
            out = '!' + type(e).__name__
        else:
            out = 'ok'
            if new:
                self.roots.append(new[0])
                self.kinds.append(new[1])
        B.spoil()
        return out

    def views(self):
        return [view(o, k) for o, k in zip(self.roots, self.kinds)]


# ---------------------------------------------------------------- histories
def lf(k, x):
    if x == 'ver':
        return G.ver()
    if x in ('lock', 'seq', 'n'):
        return G.u32()
    return {'script': lambda: G.script(), 'pegin': lambda: G.chance(.5),
            'iss': lambda: G.pick(dict(G.NULLISS), G.iss(), G.iss()),
            'asset': G.casset, 'value': G.cvalue, 'nonce': G.cnonce,
            'hash': lambda: G.h(32), 'ar': lambda: G.h(G.pick(0, 1, 9)),
            'kr': lambda: G.h(G.pick(0, 1, 9)), 'sw': G.stack, 'pw': G.stack,
            'sp': lambda: G.h(G.pick(0, 1, 9)), 'rp': lambda: G.h(G.pick(0, 2, 9))
            }[x]()


def rand_view(k, m, null=False):
    v = {'m': m}
    for x in LEAVES[k]:
        v[x] = lf(k, x)
    if null:
        v.update({'inwit': dict(ar='', kr='', sw=[], pw=[]),
                  'outwit': dict(sp='', rp='')}[k])
    for x, kk in REFS.get(k, {}).items():
        v[x] = rand_view(kk, m)
    for x, kk in LISTS.get(k, {}).items():
        v[x] = [rand_view(kk, m) for _ in range(G.pick(0, 1, 1, 2))]
    if k == 'tx':
        w = G.pick('no', 'null', 'full')
        v['wit'] = {'m': m, 'inwit': [], 'outwit': []}
        if w != 'no':
            v['wit']['inwit'] = [rand_view('inwit', m, w == 'null' or G.chance(.3)) for _ in v['vin']]
            v['wit']['outwit'] = [rand_view('outwit', m, w == 'null' or G.chance(.3)) for _ in v['vout']]
    return v


def spots(w, r, want=None):
    """All (path, kind) below root r."""
    res = []

    def go(o, k, p):
        res.append((p, k))
        for x, kk in REFS.get(k, {}).items():
            go(getattr(o, attr(k, x)), kk, p + [dict(f=x, i=0)])
        for x, kk in LISTS.get(k, {}).items():
            for i, e in enumerate(getattr(o, attr(k, x))):
                go(e, kk, p + [dict(f=x, i=i + 1)])
    go(w.roots[r - 1], w.kinds[r - 1], [])
    return [s for s in res if want is None or s[1] == want]


def any_ref(w, k):
    c = [dict(r=r, p=p) for r in range(1, len(w.roots) + 1)
         for p, kk in spots(w, r, k)]
    return G.r.choice(c) if c else None


def contains(w, dst, src):
    """Would putting object src below dst make a cycle? (kinds forbid it)"""
    return False


def rand_op(w):
    n = len(w.roots)
    if n == 0 or (n < 2 and G.chance(.3)):
        k = G.pick('tx', 'tx', 'tx', 'in', 'out', 'wit', 'inwit', 'outwit', 'op')
        return dict(op='init', k=k, v=rand_view(k, G.pick('mut', 'imm')))
    r = G.r.randrange(n) + 1
    p, k = G.r.choice(spots(w, r))
    me, _ = w.at(r, p)
    mut = me.is_mutable()
    op = G.pick(*(['conv'] * 4 + ['get', 'new', 'poke', 'bad'] + ['set'] * 4
                  + ['put', 'add', 'repl', 'del', 'drop', 'buf', 'buf']))
    b = dict(r=r, p=p)
    if op in ('conv', 'get', 'new') and n >= 7:
        op = 'set'
    if op == 'bad':
        return dict(op='bad')
    if op == 'conv':
        return dict(b, op=op, m=G.chance(.5))
    if op == 'get' and p:
        return dict(b, op=op)
    if op == 'poke' and LEAVES[k]:
        return dict(b, op=op)
    if op == 'drop' and not mut:
        x = G.pick(*(LEAVES[k] + list(REFS.get(k, {})) + list(LISTS.get(k, {}))))
        return dict(b, op=op, x=x)
    if op == 'buf':
        live = [(q, s, x) for q in range(1, n + 1) for s, kk in spots(w, q)
                for x in LEAVES[kk] if (id(w.at(q, s)[0]), x) in w.bufs]
        if live:
            q, s, x = G.r.choice(live)
            return dict(r=q, p=s, op='buf', x=x, v=lf(None, x))
        op = 'set'
    if op == 'set' and LEAVES[k]:
        x = G.pick(*LEAVES[k])
        o = dict(b, op=op, x=x, v=lf(k, x))
        if mut and x in ('ar', 'kr', 'sp', 'rp', 'hash') and G.chance(.5):
            o['b'] = 1
        return o
    if op == 'put' and k in REFS:
        x = G.pick(*REFS[k])
        s = any_ref(w, REFS[k][x])
        if s:
            return dict(b, op=op, x=x, s=s)
    if op in ('add', 'repl') and k in LISTS:
        x = G.pick(*LISTS[k])
        l = getattr(me, attr(k, x))
        s = any_ref(w, LISTS[k][x])
        if s and op == 'add' and len(l) < 4:
            return dict(b, op=op, x=x, s=s)
        if s and op == 'repl' and len(l):
            return dict(b, op=op, x=x, s=s, i=G.r.randrange(len(l)) + 1)
    if op == 'del' and k in LISTS:
        x = G.pick(*LISTS[k])
        l = getattr(me, attr(k, x))
        if len(l):
            return dict(b, op=op, x=x, i=G.r.randrange(len(l)) + 1)
    if op == 'new':
        k = G.pick('tx', 'tx', 'in', 'wit', 'out', 'op', 'inwit', 'outwit')
        f = {x: lf(k, x) for x in LEAVES[k]}
        for x, kk in REFS.get(k, {}).items():
            f[x] = any_ref(w, kk)
            if f[x] is None:
                return rand_op(w)
        for x, kk in LISTS.get(k, {}).items():
            f[x] = [s for s in (any_ref(w, kk) for _ in range(G.pick(0, 1, 2))) if s]
        return dict(op='new', k=k, m=G.chance(.5), f=f)
    return rand_op(w)


def main(out):
    for k in range(6000 if THOROUGH else 700):
        w = World()
        steps = []
        for _ in range(G.pick(4, 8, 14)):
            o, exc = outcome(rand_op, w)
            if exc:
                break
            n = len(w.roots)
            r = w.step(o)
            if len(w.roots) == n and o['op'] in ('init', 'new', 'conv', 'get'):
                steps.append(dict(o=o, out=r, views=w.views() + [{'m': r}]))
                break
            steps.append(dict(o=o, out=r, views=w.views()))
        if steps:
            out.ev({'steps': steps})


def clean(v):
    """The model writes one-byte values; expand them as load() does."""
    if isinstance(v, dict):
        v = {k: clean(x) for k, x in v.items()}
        if 'hash' in v:
            v['hash'] = (v['hash'] * 32)[:64]
        if 'nonce' in v and 'amt' in v:
            v['nonce'], v['entropy'] = '00' * 32, '00' * 32
        return v
    if isinstance(v, list):
        return [clean(x) for x in v]
    return v


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for line in open(src):
        c = json.loads(line)
        w = World()
        outs = [w.step(dict(op='init', k='tx', v=clean(c['init'])))]
        bad = []
        for o, want in zip(c['ops'], c['outs']):
            if o['op'] == 'set' and o['x'] == 'hash':
                o = dict(o, v=(o['v'] * 32)[:64])
            got = w.step(o)
            outs.append(got)
            if (got == 'ok') != (want == 'ok'):
                bad.append('operation-failed' if want == 'ok' else 'immutable-object-modified')
                break
        else:
            if w.views() != clean(c['views']):
                bad.append('object-graph')
        c['got'] = [outs, w.views()]
        out.ev(c)
        for b in bad:
            res.write(json.dumps(dict(c, clause='replay-' + b)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


if __name__ == '__main__':
    setup('elements')
    if sys.argv[1] == 'replay':
        replay(sys.argv[2], sys.argv[3])
    else:
        o = Out(sys.argv[2])
        main(o)
        o.close()
