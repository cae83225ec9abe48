"""Chain selections in threads and contexts, with looks at what they decide (C13).

d_chain.py trace OUT | d_chain.py replay CASES RES
"""
import contextvars
import queue
import sys
import threading

from elib import *  # noqa
from elib import Gen, Out, observe, outcome
import elib
import addrlib
import bitcointx.core as bc
import bitcointx.wallet as bw
import elementstx.wallet as ew
from bitcointx import find_chain_params, get_current_chain_params
from bitcointx.core.key import CKey, XOnlyPubKey
from bitcointx.core.script import (
    CScript, TaprootScriptTree, SIGHASH_Type, SIGVERSION_WITNESS_V0
)
from elementstx.core.script import CElementsScript

G = Gen(SEED * 32452843 + 13)
HOME = os.path.expanduser('~')
CORE = ('Transaction', 'TxIn', 'TxOut', 'OutPoint', 'TxWitness', 'TxInWitness',
        'TxOutWitness')
PLEN = addrlib.PLEN
CKEY = b'\x02' * 33
NETS = addrlib.CHAINS


def cls(o):
    return type(o).__name__


def show(a):
    return cls(a) + ':' + a.to_bytes().hex()


class Rec(dict):
    """name -> text; exceptions are recorded as text too."""

    def see(self, name, fn):
        try:
            r = fn()
            self[name] = r.hex() if isinstance(r, (bytes, bytearray)) else str(r)
        except Exception as e:
            self[name] = '!' + type(e).__name__


def parts(tx):
    """The classes of a transaction and all its parts."""
    s = {cls(tx), cls(tx.wit)}
    for i in tx.vin:
        s |= {cls(i), cls(i.prevout), cls(i.scriptSig)}
    for o in tx.vout:
        s |= {cls(o), cls(o.scriptPubKey)}
    for w in tx.wit.vtxinwit + tx.wit.vtxoutwit:
        s.add(cls(w))
    return ' '.join(sorted(s))


PARSE = None


def light():
    r = Rec()
    p = get_current_chain_params()
    r.see('params', lambda: cls(p))
    r.see('port', lambda: p.RPC_PORT)
    r.see('CTransaction', lambda: cls(bc.CTransaction()))
    r.see('CScript', lambda: cls(CScript(b'')))
    r.see('p2wpkh', lambda: cls(bw.P2WPKHCoinAddress.from_bytes(b'\7' * 20)))
    r.see('leafversion', lambda: bc.CoreCoinParams.TAPROOT_LEAF_TAPSCRIPT)
    return r


def view():
    """Everything the selected chain decides."""
    r = Rec()
    p = get_current_chain_params()
    r.see('params', lambda: cls(p))
    r.see('name', lambda: p.name)
    r.see('readable', lambda: p.readable_name)
    r.see('port', lambda: p.RPC_PORT)
    r.see('extra', lambda: p.get_datadir_extra_name())
    r.see('netid', lambda: p.get_network_id())
    r.see('confdir', lambda: p.get_confdir_path()[len(HOME):])
    r.see('conf', lambda: p.get_config_path()[len(HOME):])
    for n in CORE:
        for m in ('C', 'CMutable'):
            r.see(m + n, lambda: cls(getattr(bc, m + n)()))
    r.see('CScript', lambda: cls(CScript([1])))
    r.see('ScriptTree', lambda: cls(TaprootScriptTree([CScript(b'\x51', name='a')])))
    r.see('Key', lambda: cls(bw.CCoinKey.from_secret_bytes(b'\1' * 32)))
    r.see('ExtKey', lambda: cls(bw.CCoinExtKey.from_seed(b'\1' * 32)))
    r.see('ExtPubKey', lambda: cls(bw.CCoinExtKey.from_seed(b'\1' * 32).neuter()))
    c = bc.CoreCoinParams
    r.see('leafversion', lambda: c.TAPROOT_LEAF_TAPSCRIPT)
    r.see('maxmoney', lambda: c.MAX_MONEY)
    r.see('tweaktag', lambda: c.taptweak_hasher(b''))
    r.see('leaftag', lambda: c.tapleaf_hasher(b''))
    r.see('branchtag', lambda: c.tapbranch_hasher(b''))
    r.see('sighashtag', lambda: c.tap_sighash_hasher(b''))
    r.see('ctexponent', lambda: c.CT_EXPONENT)
    r.see('ctbits', lambda: c.CT_BITS)
    r.see('parsed', lambda: parts(bc.CTransaction.deserialize(PARSE)))
    r.see('parsedmutable', lambda: parts(bc.CMutableTransaction.deserialize(PARSE)))
    for k in addrlib.KINDS:
        data = b'\7' * PLEN[k]
        gen = getattr(bw, k.upper() + 'CoinAddress')
        cgen = getattr(ew, k.upper() + 'CoinConfidentialAddress')
        r.see(k, lambda: cls(gen.from_bytes(data)))
        r.see(k + 'spk', lambda: cls(bw.CCoinAddress.from_scriptPubKey(
            gen.from_bytes(data).to_scriptPubKey())))
        r.see(k + 'text', lambda: str(gen.from_bytes(data)))
        r.see(k + 'conf', lambda: cls(cgen.from_bytes(CKEY + data)))
        r.see(k + 'conftext', lambda: str(cgen.from_bytes(CKEY + data)))
        r.see(k + 'read', lambda: cls(bw.CCoinAddress(str(gen.from_bytes(data)))))
        r.see(k + 'confread', lambda: cls(ew.CCoinConfidentialAddress(
            str(cgen.from_bytes(CKEY + data)))))
        r.see(k + 'unconf', lambda: cls(cgen.from_bytes(CKEY + data).to_unconfidential()))
    return r


# ------------------------------------------------------- long-lived objects
class Obj:
    def __init__(self, spec):
        self.spec = spec
        k = spec['k']
        if k == 'tx':
            self.o = mk_tx(spec['tx'], 'mut' if spec['mut'] else 'imm')
        elif k == 'addr':
            c = addrlib.cls(spec['net'], spec['kind'], spec['conf'])
            self.o = c.from_bytes(H(spec['data']))
        elif k == 'key':
            s = '' if spec['net'] == 'elements' else 'LiquidV1'
            self.o = getattr(ew, 'CElements%sKey' % s).from_secret_bytes(H(spec['secret']))
            x = getattr(ew, 'CElements%sExtKey' % s).from_seed(H(spec['seed']))
            self.x = x
            spec['ext'] = x.to_bytes().hex()
            spec['child'] = x.derive_path(spec['path']).to_bytes().hex()

    def look(self):
        """(what any chain shows, what an Elements chain shows) of the object."""
        r = Rec()
        elements = get_current_chain_params().name.startswith('elements')
        k = self.spec['k']
        if k in ('tx', 'addr', 'key', 'iss'):
            getattr(self, 'see_' + k)(r, elements)
        elif elements:
            self.see_tree(r)
        return r

    def see_tx(self, r, elements):
        tx = self.o
        imm, mut = CElementsTransaction, CElementsMutableTransaction
        r.see('cls', lambda: parts(tx))
        r.see('ser', tx.serialize)
        r.see('txid', tx.GetTxid)
        r.see('hash', tx.GetHash)
        r.see('again', lambda: imm.deserialize(tx.serialize()).serialize())
        r.see('againcls', lambda: parts(imm.deserialize(tx.serialize())))
        r.see('mutable', lambda: parts(mut.from_tx(tx)))
        r.see('mutableser', lambda: mut.from_tx(tx).serialize())
        r.see('immutable', lambda: parts(imm.from_tx(tx)))
        r.see('immutableser', lambda: imm.from_tx(tx).serialize())

        def names(o, *attrs):
            return ' '.join([cls(o)] + [cls(getattr(o, a)) for a in attrs])
        r.see('newout', lambda: names(CElementsTxOut(), 'scriptPubKey'))
        r.see('newmutout', lambda: names(CElementsMutableTxOut(), 'scriptPubKey'))
        r.see('newin', lambda: names(CElementsTxIn(), 'prevout', 'scriptSig'))
        r.see('newwit', lambda: names(CElementsTxWitness()))
        if elements:
            s = CElementsScript(b'\x51')
            r.see('legacy', lambda: s.sighash(tx, 0, SIGHASH_Type(1)))
            r.see('v0', lambda: s.sighash(tx, 0, SIGHASH_Type(1), amount=CConfidentialValue(0),
                                          sigversion=SIGVERSION_WITNESS_V0))
            r.see('tap', lambda: s.sighash_schnorr(
                tx, 0, [tx.vout[0]] * len(tx.vin), genesis_block_hash=b'\5' * 32))

    def see_addr(self, r, elements):
        a, s = self.o, self.spec
        c = type(a)
        r.see('cls', lambda: cls(a))
        r.see('text', lambda: str(a))
        r.see('read', lambda: show(c(str(a))))
        r.see('spk', a.to_scriptPubKey)
        plain = addrlib.cls(s['net'], s['kind'], False)
        r.see('plain', lambda: show(a.to_unconfidential() if s['conf'] else a))
        r.see('plaintext', lambda: str(a.to_unconfidential() if s['conf'] else a))
        r.see('fromspk', lambda: show(plain.from_scriptPubKey(a.to_scriptPubKey())))
        key = bc.key.CPubKey(CKEY)
        conf = addrlib.cls(s['net'], s['kind'], True)
        r.see('conf', lambda: show(a if s['conf'] else conf.from_unconfidential(a, key)))
        r.see('conftext', lambda: str(a if s['conf'] else conf.from_unconfidential(a, key)))

    def see_key(self, r, elements):
        k, x = self.o, self.x
        r.see('cls', lambda: cls(k))
        r.see('pub', lambda: k.pub)
        r.see('text', lambda: str(k))
        r.see('read', lambda: cls(k) + ':' + type(k)(str(k)).secret_bytes.hex())
        r.see('extcls', lambda: cls(type(x)(str(x))))
        r.see('exttext', lambda: str(x))
        r.see('childcls', lambda: cls(x.derive_path(self.spec['path'])))
        r.see('childtext', lambda: str(x.derive_path(self.spec['path'])))

    def see_tree(self, r):
        t, exc = outcome(lambda: TaprootScriptTree(
            [CElementsScript(H(s)) for s in self.spec['scripts']],
            internal_pubkey=XOnlyPubKey(H(self.spec['key']))))
        r.see('cls', lambda: exc or cls(t))
        r.see('root', lambda: t.merkle_root)
        r.see('out', lambda: bytes(t.output_pubkey))

    def see_iss(self, r, elements):
        s = self.spec
        p = CElementsOutPoint(H(s['hash']), int.from_bytes(H(s['n']), 'little'))
        c = Uint256(H(s['contract']))
        from elementstx.core import (
            generate_asset_entropy, calculate_asset, calculate_reissuance_token)
        r.see('entropy', lambda: generate_asset_entropy(p, c).data)
        e = generate_asset_entropy(p, c)
        r.see('asset', lambda: calculate_asset(e).data)
        r.see('token', lambda: calculate_reissuance_token(e, is_confidential=False).data)
        r.see('ctoken', lambda: calculate_reissuance_token(e, is_confidential=True).data)


# -------------------------------------------------------------------- lanes
class ThreadLane:
    """A thread that does what it is told."""

    def __init__(self, start):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.stack = []
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()
        self.run(lambda: select_chain_params(start))

    def loop(self):
        for fn in iter(self.q.get, None):
            try:
                self.r.put((fn(), None))
            except BaseException as e:
                self.r.put((None, e))

    def run(self, fn):
        self.begin(fn)
        return self.end()

    def begin(self, fn):
        self.q.put(fn)

    def end(self):
        v, e = self.r.get()
        if e is not None:
            raise e
        return v

    def close(self):
        self.q.put(None)
        self.t.join()

    def copy(self):
        return ContextLane(self.run(contextvars.copy_context), self)


class ContextLane:
    """A copied context, entered anew for every step, as asyncio does; the
    steps run in the thread they are told to run in."""

    def __init__(self, ctx, home=None):
        self.ctx, self.home, self.stack = ctx, home, []

    def run(self, fn):
        if self.home is not None:
            return self.home.run(lambda: self.ctx.run(fn))
        return self.ctx.run(fn)

    def begin(self, fn):
        self.pending = fn

    def end(self):
        return self.run(self.pending)

    def close(self):
        pass

    def copy(self):
        return ContextLane(self.run(contextvars.copy_context), self.home)


class Boom(Exception):
    pass


def op(lane, what, name, how='name', share=None):
    """One operation inside a lane (called there): 'ok' or '!Exception'."""
    def arg():
        if how == 'class':
            return find_chain_params(name=name) or name
        if how == 'object' and find_chain_params(name=name):
            return share or find_chain_params(name=name)()
        return name
    try:
        if what == 'select':
            prev, new = select_chain_params(arg())
            return 'ok' if new is get_current_chain_params() else 'wrong object returned'
        elif what == 'enter':
            cm = ChainParams(arg())
            new = cm.__enter__()
            lane.stack.append(cm)
            return 'ok' if new is get_current_chain_params() else 'wrong object returned'
        elif what == 'leave':
            lane.stack.pop().__exit__(None, None, None)
        elif what == 'raise':
            cm = lane.stack.pop()
            try:
                raise Boom()
            except Boom as e:
                try:
                    if cm.__exit__(Boom, e, e.__traceback__):
                        return 'swallowed'
                except Boom:
                    pass
        return 'ok'
    except Exception as e:
        return '!' + type(e).__name__


# -------------------------------------------------------------------- traces
NAMES = ['bitcoin', 'bitcoin/mainnet', 'bitcoin/testnet', 'bitcoin/regtest',
         'bitcoin/signet', 'elements', 'elements/elementsregtest',
         'elements/liquidv1', 'elements', 'elements/liquidv1', 'elements',
         'elements/liquidv1', 'bitcoin']
BAD = ['liquidv1', 'elements/', 'Elements', 'elements/liquidv2', '', 'elements/testnet']


def some_tx():
    t = G.tx(G.pick(1, 2), G.pick(1, 2), 'both')
    t['inwit'] = [dict(w, ar=w['ar'] or '01') for w in t['inwit']]
    t['outwit'] = [dict(w, sp=w['sp'] or '01') for w in t['outwit']]
    return t


def objects():
    r = []
    for mut in (False, True):
        r.append({'k': 'tx', 'tx': some_tx(), 'mut': mut})
    for net in NETS:
        for conf in (False, True):
            kind = G.pick(*addrlib.KINDS)
            a, _ = addrlib.make(G, net, kind, conf)
            r.append({'k': 'addr', 'net': net, 'kind': kind, 'conf': conf,
                      'data': a.to_bytes().hex()})
    r.append({'k': 'key', 'net': G.pick(*NETS), 'secret': G.h(31) + '07',
              'seed': G.h(32), 'path': G.pick('m/0', "m/1'", "m/2h/3")})
    r.append({'k': 'tree', 'scripts': [G.pick('51', 'ac', G.h(5)) for _ in range(G.pick(1, 2, 3))],
              'key': CKey(G.b(31) + b'\3').xonly_pub.hex()})
    r.append({'k': 'iss', 'hash': G.h(32), 'n': G.pick('00000000', '01000000', 'ffffff00'),
              'contract': G.h(32)})
    return r


def look(lane, num, objs):
    def f():
        return {'lane': num, 'view': view(), 'objs': [o.look() for o in objs]}
    return lane.run(f)


def base(op, lane=0, n='', frm=0, out='ok', objs=(), looks=()):
    return {'op': op, 'lane': lane, 'n': n, 'from': frm, 'out': out,
            'objs': list(objs), 'looks': list(looks)}


def looks_after(lanes, objs, j):
    pick = {j, G.r.randrange(len(lanes))} if len(lanes) else set()
    return [look(lanes[i], i + 1, objs) for i in sorted(pick)]


def history(out, length, nlanes):
    lanes, steps, objs = [], [], []
    c = G.pick(*NAMES)
    lanes.append(ThreadLane(c))
    steps.append(base('start', 1, c, looks=looks_after(lanes, [], 0)))
    shared = {}
    for i in range(length):
        j = G.r.randrange(len(lanes))
        lane = lanes[j]
        if len(lanes) < nlanes and G.chance(0.4):
            if G.chance(0.5):
                c = G.pick(*NAMES)
                lanes.append(ThreadLane(c))
                steps.append(base('start', len(lanes), c,
                                  looks=looks_after(lanes, objs, len(lanes) - 1)))
            else:
                lanes.append(lane.copy())
                steps.append(base('copy', len(lanes), frm=j + 1,
                                  looks=looks_after(lanes, objs, len(lanes) - 1)))
            continue
        if i == 2 or (objs and G.chance(0.05)):
            specs = lane.run(objects)
            objs = lane.run(lambda: [Obj(s) for s in specs])
            steps.append(base('objs', j + 1, objs=[o.spec for o in objs],
                              looks=looks_after(lanes, objs, j)))
            continue
        what = G.pick('select', 'enter', 'enter', 'leave', 'raise')
        if what in ('leave', 'raise') and not lane.stack:
            what = G.pick('select', 'enter')
        name = ''
        how = 'name'
        if what in ('select', 'enter'):
            name = G.pick(*BAD) if G.chance(0.15) else G.pick(*NAMES)
            how = G.pick('name', 'name', 'class', 'object')
            if how == 'object':
                # one object in several lanes
                p = find_chain_params(name=name)
                if p is not None:
                    shared.setdefault(name, p())
        o = lane.run(lambda: op(lane, what, name, how, shared.get(name)))
        steps.append(base(what, j + 1, name, out=o, looks=looks_after(lanes, objs, j)))
    # all temporary selections are left in the end
    for j, lane in enumerate(lanes):
        while lane.stack:
            what = G.pick('leave', 'raise')
            o = lane.run(lambda: op(lane, what, ''))
            steps.append(base(what, j + 1, out=o, looks=looks_after(lanes, objs, j)))
    for lane in lanes:
        lane.close()
    out.ev({'steps': steps}, nontrivial=len(lanes) > 1)


def race(out, nlanes, length):
    """Threads at full speed, each with its own selections."""
    steps, lanes = [], []
    for i in range(nlanes):
        c = G.pick(*NAMES)
        lanes.append(ThreadLane(c))
        steps.append(base('start', i + 1, c))
    specs = lanes[0].run(objects)
    objs = lanes[0].run(lambda: [Obj(s) for s in specs])
    steps.append(base('objs', 1, objs=[o.spec for o in objs]))
    plans = [[(G.pick('select', 'enter'), G.pick(*NAMES)) for _ in range(length)]
             for _ in lanes]

    def work(lane, num, plan):
        mine = []

        def one(what, name):
            o = op(lane, what, name)
            mine.append(base(what, num, name, out=o, looks=[
                {'lane': num, 'view': view(), 'objs': [x.look() for x in objs]}]))
        for what, name in plan:
            one(what, name)
        while lane.stack:
            one('leave', '')
        return mine
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for i, lane in enumerate(lanes):
            lane.begin(lambda l=lane, i=i: work(l, i + 1, plans[i]))
        for lane in lanes:
            steps += lane.end()
    finally:
        sys.setswitchinterval(old)
    for lane in lanes:
        lane.close()
    out.ev({'steps': steps})


def trace(out):
    for k in range(240 if THOROUGH else 60):
        history(out, G.pick(6, 10, 16), G.pick(1, 2, 3, 4))
    for k in range(40 if THOROUGH else 6):
        race(out, 4, 4)


# -------------------------------------------------------------------- replay
def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    table = None

    def fail(got, want):
        return [p[0] for p in want if got.get(p[0]) != p[1]]

    def judge(hist, n):
        lanes = []
        try:
            for i, c in enumerate(hist[0]['cur']):
                if i == 0 or n % 3 == 0:
                    lanes.append(ThreadLane(c))
                else:
                    lanes.append(lanes[0].copy() if n % 3 == 1 else
                                 ContextLane(contextvars.copy_context()))
                    lanes[-1].run(lambda: select_chain_params(c))
            for m, s in enumerate(hist[1:]):
                lane = lanes[s['lane'] - 1]
                o = lane.run(lambda: op(lane, s['op'], s['n'],
                                        ('name', 'class', 'object')[(n + m) % 3]))
                if (o == 'ok') != (s['out'] == 'ok') or (o != 'ok' and o != '!ValueError'):
                    return 'replay-' + s['op'] + '-outcome', o
                for l, c in zip(lanes, s['cur']):
                    want = table[c]
                    if m == len(hist) - 2:
                        f = fail(l.run(view), want)
                    else:
                        got = l.run(light)
                        f = fail(got, [p for p in want if p[0] in got])
                    if f:
                        return 'replay-generic-' + f[0], f
        finally:
            for l in lanes:
                l.close()
        return None, None

    for n, line in enumerate(open(src)):
        c = json.loads(line)
        if isinstance(c, dict):
            table = c['table']
            continue
        clause, got = judge(c, n)
        out.ev({'n': n, 'steps': [[s['lane'], s['op'], s['n']] for s in c]})
        if clause:
            res.write(json.dumps({'steps': c, 'clause': clause, 'got': got}) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


select_chain_params('elements')
PARSE = mk_tx(some_tx()).serialize()
if sys.argv[1] == 'replay':
    replay(sys.argv[2], sys.argv[3])
else:
    out = Out(sys.argv[2])
    trace(out)
    out.close()
