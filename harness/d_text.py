"""Printed forms of objects (C28).

d_text.py text OUT
d_text.py replay CASES RES
"""
import sys

from elib import *  # noqa
from elib import Gen, Out, observe, outcome, mk_iss, conf, u32, i32, mk_wit
import elib

G = Gen(SEED * 9241 + 17)
MK = {'in': mk_in, 'out': mk_out, 'inwit': mk_inwit, 'outwit': mk_outwit}
CONF = {'value': CConfidentialValue, 'asset': CConfidentialAsset,
        'nonce': CConfidentialNonce}


def scripts(t):
    """The text of every script, which is the library's business."""
    for i in t['vin'] + t['vout']:
        i['st'] = repr(CElementsScript(H(i['script'])))
    return t


def made(what, j, m, how):
    if what == 'tx':
        if how == 0:
            cls = CElementsMutableTransaction if m else CElementsTransaction
            return cls([mk_in(i, m) for i in j['vin']], [mk_out(o, m) for o in j['vout']],
                       u32(j['lock']), i32(j['ver']), mk_wit(j, m))
        tx = mk_tx(j, elib.ROUTES[how % len(elib.ROUTES)])
        return tx.to_mutable() if m else tx.to_immutable()
    if what == 'wit':
        return elib.mk_wit(j, m, how % 3)
    if what == 'op':
        return (CElementsMutableOutPoint if m else CElementsOutPoint)(H(j['hash']), u32(j['n']))
    if what == 'iss':
        return mk_iss(j, how % 3)
    if what in CONF:
        return conf(CONF[what], j, how % 3)
    if what == 'assetid':
        return CAsset(H(j))
    return MK[what](j, m, how % 3)


def text_event(what, j, m, how, kept=0):
    def get():
        o = made(what, j, m, how)
        if kept == 1:
            o.serialize()
        elif kept == 2:
            str(o), repr(o)
        return o
    o, exc = outcome(get)
    if exc:
        return dict(k='txt', what=what, j=j, m=m, how=how, kept=kept, full=exc, brief=exc)
    return dict(k='txt', what=what, j=j, m=m, how=how, kept=kept,
                full=observe(repr, o), brief=observe(str, o))


def text_events(out):
    for k in range(6000 if THOROUGH else 900):
        t = scripts(G.tx())
        m = G.chance(.5)
        # witness lists that were left out are filled in for a mutable transaction
        if all(not any(w.values()) for w in t['inwit'] + t['outwit']):
            t['inwit'] = [dict(ar='', kr='', sw=[], pw=[]) for _ in t['vin']] if m else []
            t['outwit'] = [dict(sp='', rp='') for _ in t['vout']] if m else []
        out.ev(text_event('tx', t, m, 0, k % 3))
        how = k % 8
        out.ev(text_event('wit', dict(inwit=t['inwit'], outwit=t['outwit']), m, how))
        for what, v in (('in', 'vin'), ('out', 'vout'), ('inwit', 'inwit'), ('outwit', 'outwit')):
            for j in t[v]:
                out.ev(text_event(what, j, m, how, k // 8 % 3))
                if what == 'in':
                    out.ev(text_event('op', dict(hash=j['hash'], n=j['n']), m, how))
                    out.ev(text_event('iss', j['iss'], m, how))
                if what == 'out':
                    for c in CONF:
                        out.ev(text_event(c, j[c], m, how))
    for k in range(6000 if THOROUGH else 1500):
        c = G.pick(*CONF)
        n = G.pick(0, 9, 33, 33) if c == 'value' else G.pick(0, 33, 33)
        b = G.b(n) if n else b''
        if n:
            b = bytes([G.pick(0, 1, 1, 1, 2, 3, 8, 9, 10, 11, 255)]) + G.pick(
                b[1:], b[1:], b'\x00' * (n - 1), b'\x01' * (n - 1), b'\xff' * (n - 1))
        out.ev(text_event(c, b.hex(), False, k))
        if n == 33:
            out.ev(text_event('assetid', b[1:].hex(), False, 0))
    for k in range(4000 if THOROUGH else 800):
        z = '00' * 32
        j = dict(nonce=G.pick(z, G.h(32), '01' * 32, '01' + '00' * 31, '00' * 31 + '01'),
                 entropy=G.pick(z, G.h(32), 'ff' * 32, '00' * 31 + '01'),
                 amt=G.pick('', '08' + G.h(32), '01' + G.h(8), '01' + '00' * 8),
                 keys=G.pick('', '09' + G.h(32), '01' + '00' * 7 + G.h(1), '01' + '01' * 8))
        out.ev(text_event('iss', j, False, k))
    for k in range(600 if THOROUGH else 120):
        def n():
            return G.pick(0, 1, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 520, 521, 1000, 3000)
        out.ev(text_event('outwit', dict(sp=G.h(n()), rp=G.h(n())), k % 2 == 0, k // 2))
        out.ev(text_event('inwit', dict(
            ar=G.h(n()), kr=G.h(n()), sw=[G.h(n()) for _ in range(G.pick(0, 1, 2, 20))],
            pw=[G.h(n()) for _ in range(G.pick(0, 1, 2, 20))]), k % 2 == 0, k // 2))
        t = G.tx(G.pick(1, 12), G.pick(1, 12))
        for i in t['vin'] + t['vout']:
            i['script'] = G.h(n())
        t['inwit'], t['outwit'] = [G.inwit() for _ in t['vin']], [G.outwit() for _ in t['vout']]
        out.ev(text_event('tx', scripts(t), k % 2 == 0, 0, k % 3))
    for k in range(300):
        h = G.pick('00' * 32, 'ff' * 32, G.h(32))
        n = struct.pack('<I', G.pick(0, 1, 9, 10, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1)).hex()
        out.ev(text_event('op', dict(hash=h, n=n), k % 2 == 0, 0))


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        for m in ((False, True) if 'mfull' in c else (False,)):
            e = text_event(c['what'], c['j'], m, n, n % 3)
            out.ev(e)
            for a in ('full', 'brief'):
                if e[a] != c[('m' if m else '') + a]:
                    res.write(json.dumps(dict(c, got=e, clause='replay-text-' + a)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    setup('elements')
    if sys.argv[1] == 'replay':
        replay(sys.argv[2], sys.argv[3])
        return
    out = Out(sys.argv[2])
    text_events(out)
    out.close()


main()
