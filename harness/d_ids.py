"""Record ids (C09), peg-out recognition (C19), blinding keys (C20),
scripts put together (C26), or replay.

d_ids.py ids|peg|key|script OUT
d_ids.py replay CASES RES
"""
import sys

from elib import *  # noqa
from elib import Gen, Out, observe, outcome
from bitcointx.core import CBitcoinOutPoint, CBitcoinMutableOutPoint
from bitcointx.core.key import CKey, CPubKey, CKeyBase
from bitcointx.core.script import CBitcoinScript
from bitcointx.wallet import CCoinKey, CCoinExtKey
from elementstx.core import (generate_asset_entropy, calculate_asset,
                             calculate_reissuance_token, derive_blinding_key)
import elementstx.wallet as W
import elementstx.core.script as ES
import bitcointx.core.script as BS
from bitcointx.core.script import CScriptOp

G = Gen(SEED * 104729 + 11)


def val(u):
    return u.data.hex() if isinstance(u, Uint256) else repr(u)


def asset(u):
    return u.data.hex() if isinstance(u, CAsset) else repr(type(u))


def entropy(prev, con):
    r, exc = outcome(generate_asset_entropy, prev, con)
    return exc or val(r)


OPS = ('imm', 'mut', 'plain', 'gen', 'tx', 'dec', 'decmut', 'edited', 'rt')


def outpoint(how, h, n, iss=None, pegin=False):
    """The spent outpoint, reached in one of the ways a user gets at it."""
    if how == 'imm':
        return CElementsOutPoint(H(h), u32(n))
    if how == 'mut':
        return CElementsMutableOutPoint(H(h), u32(n))
    if how == 'plain':
        return CBitcoinOutPoint(H(h), u32(n))
    if how == 'gen':
        return G.pick(COutPoint, CMutableOutPoint)(H(h), u32(n))
    if how == 'rt':
        return CElementsOutPoint.deserialize(H(h) + H(n))
    if how == 'edited':
        p = CElementsMutableOutPoint(G.b(32), 7)
        p.GetHash()
        p.serialize()
        p.hash = H(h)
        p.n = u32(n)
        return p
    i = G.vin(coinbase=False)
    i.update(hash=h, n=n, pegin=pegin)
    if iss:
        i['iss'] = iss
    t = G.tx(1, 1)
    t['vin'] = [i]
    if how == 'tx':
        tx = mk_tx(t, G.pick(*ROUTES))
    else:
        data = mk_tx(t).serialize()
        tx = (CElementsTransaction if how == 'dec'
              else CElementsMutableTransaction).deserialize(data)
    return tx.vin[0].prevout


def con_form(c, how):
    return (lambda: H(c), lambda: bytearray(H(c)), lambda: Uint256(H(c)),
            lambda: CAsset(H(c)))[how % 4]()


def ids_events(out):
    for k in range(12000 if THOROUGH else 2400):
        h = G.pick(G.h(32), G.h(32), '00' * 32, 'ff' * 32)
        n = struct.pack('<I', G.pick(0, 1, 2, 255, 256, 65535, 65536, 0x1fffffff,
                                     0x20000000, 0x3ffffffe, 0x3fffffff,
                                     G.r.getrandbits(30), G.r.getrandbits(30))).hex()
        how = OPS[k % len(OPS)]
        if how in ('imm', 'mut', 'plain', 'gen', 'rt', 'edited') and G.chance(.2):
            n = struct.pack('<I', G.pick(0x40000000, 0x7fffffff, 0x80000000,
                                         0xfffffffe, 0xffffffff, 0xffffffff,
                                         0xc0000001)).hex()
        iss, peg = G.pick((G.iss(), True), (G.iss(), False), (None, True),
                          (dict(G.NULLISS), False))
        if n == 'ffffff3f':
            iss, peg = dict(G.NULLISS), False
        c = G.pick(G.h(32), G.h(32), '00' * 32)
        p = outpoint(how, h, n, iss, peg)
        arg = con_form(c, k // 7)
        r = entropy(p, arg)
        again = entropy(p, con_form(c, k // 7 + 1))
        out.ev(dict(k='ent', hash=h, n=n, contract=c, res=r, again=again))
    for k in range(6000 if THOROUGH else 1600):
        ln = 32
        if k % 4 == 0:
            ln = G.pick(0, 1, 16, 31, 33, 34, 63, 64, 65)
        e = G.pick(G.h(ln), G.h(ln), '00' * ln, 'ff' * ln)
        arg = (con_form(e, k) if ln == 32 else
               G.pick(bytes, bytearray)(H(e)))

        def call(fn, *a):
            r, exc = outcome(fn, *a)
            return exc or asset(r)
        out.ev(dict(k='ast', entropy=e, ast=call(calculate_asset, arg),
                    tok0=call(calculate_reissuance_token, arg, False),
                    tok1=call(calculate_reissuance_token, arg, True)))


def show_peg(r):
    if r is None:
        return 'none'
    if isinstance(r, str):
        return r
    g, s = r
    if not isinstance(s, CElementsScript):
        return repr(type(s))
    return bytes(g).hex() + ':' + bytes(s).hex()


def peg_event(script, how=0):
    s = (CElementsScript, CScript)[how % 2](H(script))
    r, exc = outcome(s.get_pegout_data)
    return dict(k='peg', script=script, res=exc or show_peg(r),
                **{'is': observe(s.is_pegout)}, uns=observe(s.is_unspendable))


def push(n, form):
    d = G.b(n)
    if form == 0 and n > 75:
        form = 1 if n < 256 else 2
    if form == 1 and n > 255:
        form = 2
    pre = {0: bytes([n & 255]), 1: b'\x4c' + bytes([n & 255]),
           2: b'\x4d' + struct.pack('<H', n & 65535),
           4: b'\x4e' + struct.pack('<I', n)}[form]
    return pre + d


def peg_events(out):
    for k in range(20000 if THOROUGH else 4000):
        m = k % 5
        form = lambda: G.pick(0, 0, 1, 2, 4)  # noqa
        good = (b'\x6a' + push(32, form())
                + push(G.pick(1, 1, 20, 22, 25, 75, 76, 255, 256, 520, 521), form()))
        if m == 0:
            s = good + G.pick(b'', b'', push(G.pick(0, 1, 33), form()), G.b(3),
                              b'\x4e\xff\xff\xff\xff', b'\x4c')
        elif m == 1:
            s = good[:G.r.randrange(len(good))]
        elif m == 2:
            s = bytearray(good)
            s[G.r.randrange(min(len(s), 40))] = G.r.randrange(256)
            s = bytes(s)
        elif m == 3:
            s = (G.pick(b'\x6a', b'\x6a', b'', b'\x51')
                 + push(G.pick(31, 32, 32, 33, 0, 64), form())
                 + G.pick(push(0, form()), b'\x51', b'\x60', b'\x4f', b'\xac',
                          push(5, form()), b'\x4e\xff\xff\xff\xff' + G.b(5),
                          b'\x4d\xff', b'\x4e\x01\x00'))
        else:
            s = G.pick(b'', b'\x6a') + G.b(G.pick(0, 1, 2, 5, 33, 34, 70))
        out.ev(peg_event(s.hex(), k))
    for n in (9998, 9999, 10000, 10001, 10002, 12000, 20000):
        for first in (b'\x51', b'\x6a', b'\x61', b'\x00', b'\x4c'):
            out.ev(peg_event((first + b'\x61' * (n - 1)).hex(), n))
        for good in (b'\x6a' + push(32, 0) + push(5, 0), b'\x6a'):
            out.ev(peg_event((good + b'\x61' * (n - len(good))).hex(), n))
        out.ev(peg_event((b'\x6a' + push(32, 0) + push(n - 36, 2)).hex(), n))
    for a in range(256):
        out.ev(peg_event('%02x' % a))
        out.ev(peg_event('6a20' + G.h(32) + '%02x' % a))
        out.ev(peg_event('6a20' + G.h(32) + '%02x' % a + G.h(a)))
        out.ev(peg_event('6a%02x' % a + G.h(32) + '0151'))
        out.ev(peg_event('%02x20' % a + G.h(32) + '0151'))


def show_key(k):
    return k.secret_bytes.hex() if isinstance(k, CKeyBase) else repr(type(k))


def masters(secret):
    """The key, in each form of a key object."""
    c = G.pick(True, True, False)
    r = [CKey.from_secret_bytes(secret, c)]
    r.append(W.CElementsKey.from_secret_bytes(secret, c))
    r.append(W.CElementsLiquidV1Key.from_secret_bytes(secret, c))
    r.append(CCoinKey.from_secret_bytes(secret, c))
    r.append(CCoinExtKey.from_bytes(b'\x00' * 9 + G.b(32) + b'\x00' + secret).priv)
    return r


def key_events(out):
    scripts = ['', '00', '51', '6a', '00' * 64, '00' * 65]
    for k in range(3200 if THOROUGH else 640):
        sec = G.b(32) if k % 9 else (1 + k).to_bytes(32, 'big')
        ms = masters(sec)
        m = ms[k % len(ms)]
        s = (scripts[k] if k < len(scripts)
             else G.pick(G.script(), G.script(), G.script(True), G.script() + '00'))
        if k % 50 == 0:
            s = G.h(G.pick(1000, 10001))
        arg = (CElementsScript(H(s)), H(s), bytearray(H(s)), CScript(H(s)))[(k // 5) % 4]
        fn, exc = outcome(derive_blinding_key, m, arg)
        meth, exc2 = outcome(CElementsScript(H(s)).derive_blinding_key, m)
        out.ev(dict(k='key', master=sec.hex(), master2=m.secret_bytes.hex(),
                    script=s, fn=exc or show_key(fn),
                    meth=exc2 or show_key(meth),
                    pub=exc or bytes(fn.pub).hex()))
    class NotAScript(str):
        pass
    good = CKey.from_secret_bytes(G.b(32))
    for s in ('', '51', G.h(22), G.h(34)):
        es = CElementsScript(H(s))
        for what, m, a in (
            [('foreign-script-accepted', good, CBitcoinScript(H(s)))]
            + [('non-script-accepted', good, x)
               for x in (s, None, 5, [1, 2], NotAScript(s), memoryview(H(s)))]
            + [('non-key-master-accepted', x, y)
               for y in (es, H(s))
               for x in (G.b(32), None, 'a', good.pub, bytearray(32),
                         Uint256(G.b(32)), good.secret_bytes, 5)]):
            r, exc = outcome(derive_blinding_key, m, a)
            out.ev(dict(k='bad', what=what, res=exc or 'accepted'))
            if isinstance(a, CElementsScript):
                r, exc = outcome(a.derive_blinding_key, m)
                out.ev(dict(k='bad', what=what + '-by-method', res=exc or 'accepted'))


# ---------------------------------------------------------------- scripts
OPNAMES = sorted(n for n in dir(ES) if n.startswith('OP_')
                 and isinstance(getattr(ES, n), int)
                 and not hasattr(BS, n))


def elem(e):
    """The Python value of an element."""
    if e['k'] == 'name':
        return getattr(ES, e['name'])
    if e['k'] == 'op':
        return CScriptOp(e['op'])
    if e['k'] == 'num':
        return e['num']
    return G.pick(bytes, bytearray)(H(e['data']))


def token(x):
    if isinstance(x, CScriptOp):
        return 'op:%d' % x
    if isinstance(x, int):
        return 'num:%d' % x
    if isinstance(x, (bytes, bytearray)):
        return 'data:' + bytes(x).hex()
    return repr(type(x))


def read(s):
    r = []
    try:
        for x in s:
            r.append(token(x))
    except Exception:
        r.append('op:256')
    return r


BUILD = ('list', 'tuple', 'generator', 'append', 'split', 'generic', 'generic+')
HOLD = ('as-is', 'bytes', 'txout', 'mtxout', 'tx', 'scriptsig', 'copy')


def build(es, how):
    v = [elem(e) for e in es]
    if how == 'list':
        return CElementsScript(v)
    if how == 'tuple':
        return CElementsScript(tuple(v))
    if how == 'generator':
        return CElementsScript(x for x in v)
    if how == 'generic':
        return CScript(v)
    if how == 'split':
        k = G.r.randint(0, len(v))
        s = CElementsScript(v[:k])
    else:
        k = 0
        s = (CScript if how == 'generic+' else CElementsScript)()
    for x in v[k:]:
        s = s + x
    return s


def hold(s, how):
    """The script after something has kept it."""
    if how == 'bytes':
        return CElementsScript(bytes(s))
    if how in ('txout', 'mtxout'):
        cls = CElementsTxOut if how == 'txout' else CElementsMutableTxOut
        o = cls(CConfidentialValue(5), s, CConfidentialAsset(CAsset(b'\1' * 32)))
        return cls.deserialize(o.serialize()).scriptPubKey
    if how == 'tx':
        o = CElementsTxOut(CConfidentialValue(5), s, CConfidentialAsset(CAsset(b'\1' * 32)))
        i = CElementsTxIn(CElementsOutPoint(b'\2' * 32, 1), s)
        t = CElementsTransaction.deserialize(CElementsTransaction([i], [o]).serialize())
        return t.vout[0].scriptPubKey
    if how == 'scriptsig':
        i = CElementsMutableTxIn(CElementsOutPoint(b'\2' * 32, 1), s)
        return CElementsTxIn.from_instance(i).scriptSig
    if how == 'copy':
        return CElementsTxOut(CConfidentialValue(5), s,
                              CConfidentialAsset(CAsset(b'\1' * 32))).to_mutable().scriptPubKey
    return s


def ops_event(es, how, kept):
    def go():
        s = build(es, how)
        t = hold(s, kept)
        return s, t, repr(t)
    r, exc = outcome(go)
    if exc:
        return dict(k='ops', es=es, how=how, kept=kept, script=exc, after='',
                    read=[], cls='T')
    s, t, _ = r
    return dict(k='ops', es=es, how=how, kept=kept, script=bytes(s).hex(),
                after=bytes(t).hex(), read=read(t),
                cls='T' if isinstance(s, CElementsScript) and type(t) is type(s)
                else repr((type(s), type(t))))


def an_elem(small):
    k = G.pick('name', 'name', 'op', 'num', 'num', 'data')
    e = dict(k=k, op=0, num=0, data='', name='')
    if k == 'name':
        e['name'] = G.pick(*OPNAMES)
    elif k == 'op':
        e['op'] = G.pick(0, G.r.randint(79, 255), G.r.randint(79, 255), G.r.randint(185, 255))
    elif k == 'num':
        b = G.pick(3, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31)
        e['num'] = G.pick(G.r.randint(-20, 20), (1 << b) - 1, min(1 << b, 2**31 - 1),
                          G.r.getrandbits(b)) * G.pick(1, -1)
    else:
        n = G.pick(0, 1, 1, 2, 20, 32, 33, 64, 75, 76)
        if not small:
            n = G.pick(n, 77, 80, 254, 255, 256, 257, 520, 1000)
        e['data'] = G.pick(G.h(n), G.h(n), '00' * n, '%02x' % G.r.randint(0, 17) if n else '')
    return e


def script_events(out):
    # every name, with the code it stands for
    for n in OPNAMES:
        e = dict(k='name', op=0, num=0, data='', name=n)
        out.ev(dict(k='opn', name=n, code=int(getattr(ES, n)),
                    cls='T' if isinstance(getattr(ES, n), CScriptOp) else 'F'))
        for how in BUILD:
            for kept in HOLD:
                out.ev(ops_event([e], how, kept))
    out.ev(dict(k='opnames', names=OPNAMES))
    for k in range(30000 if THOROUGH else 5000):
        n = G.pick(0, 1, 2, 2, 3, 4, 6, 12)
        es = [an_elem(small=n > 3) for _ in range(n)]
        out.ev(ops_event(es, BUILD[k % 7], HOLD[k // 7 % 7]))
    # bytes that nobody wrote as elements
    for k in range(12000 if THOROUGH else 2000):
        b = bytes(G.pick(0, 1, 2, 3, 75, 76, 76, 77, 78, 79, 80, 81, 96, 97, 106,
                         192, 255, G.r.randint(0, 255)) for _ in range(G.r.randint(1, 8)))
        s = hold(CElementsScript(b), HOLD[k % 7])
        out.ev(dict(k='rd', bytes=b.hex(), after=bytes(s).hex(), read=read(s)))


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        bad = []
        if c['k'] == 'ids':
            for how in OPS:
                p = outpoint(how, c['hash'], c['n'])
                e = entropy(p, con_form(c['contract'], n))
                bad += [] if e == c['e'] else ['entropy']
            for a in (bytes, bytearray, Uint256):
                a = a(H(c['e']))
                if asset(calculate_asset(a)) != c['a']:
                    bad.append('asset-id')
                if asset(calculate_reissuance_token(a, False)) != c['t']:
                    bad.append('token-id')
                if asset(calculate_reissuance_token(a, True)) != c['c']:
                    bad.append('token-id-confidential')
        elif c['k'] == 'key':
            for m in masters(H(c['master'])):
                for a in (CElementsScript, bytes, bytearray, CScript):
                    if show_key(derive_blinding_key(m, a(H(c['script'])))) != c['want']:
                        bad.append('blinding-key')
                k = CElementsScript(H(c['script'])).derive_blinding_key(m)
                if show_key(k) != c['want'] or bytes(k.pub).hex() != c['pub']:
                    bad.append('blinding-key-of-script-method')
        elif c['k'] == 'ops':
            for how in BUILD:
                e = ops_event(c['es'], how, HOLD[n % 7])
                if e['script'] != c['script'] or e['cls'] != 'T':
                    bad.append('script-bytes-' + how)
                if e['after'] != c['script'] or e['read'] != c['read']:
                    bad.append('script-read-back')
        else:
            e = peg_event(c['script'], n)
            if e['res'] != c['res'] or (e['is'] == 'T') != (c['res'] != 'none'):
                bad.append('pegout-data')
            if e['uns'] != c['uns']:
                bad.append('is-unspendable')
            c = dict(c, got=e)
        out.ev(c)
        for b in set(bad):
            res.write(json.dumps(dict(c, clause='replay-' + b)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    setup('elements')
    if sys.argv[1] == 'replay':
        replay(sys.argv[2], sys.argv[3])
        return
    out = Out(sys.argv[2])
    {'ids': ids_events, 'peg': peg_events, 'key': key_events,
     'script': script_events}[sys.argv[1]](out)
    out.close()


main()
