"""Record signature hashes (C06 C07 C08), or replay the behaviours of SighashMC.

d_sighash.py trace legacy|v0|tap OUT      record a trace
d_sighash.py replay CASES RES             replay TLC's behaviours
"""
import sys

from elib import *  # noqa
from elib import Gen, Out, observe, outcome
import elib
from bitcointx.core.script import (
    SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGVERSION_TAPROOT,
    SIGVERSION_TAPSCRIPT, SIGHASH_Type
)
from elementstx.core.script import (
    CElementsScript, RawElementsSignatureHash, ElementsSignatureHashSchnorr
)

G = Gen(SEED * 7919 + 5)


def ht_arg(ht):
    """A hash type given as 4 bytes; a SIGHASH_Type where it is one."""
    v = struct.unpack('<i', H(ht))[0]
    try:
        return SIGHASH_Type(v)
    except ValueError:
        return v


def raw(fn):
    r, exc = outcome(fn)
    if exc:
        return exc, exc
    h, err = r
    return h.hex(), 'F' if err is None else 'T'


def one(kind, tx, script, idx, ht, amt=None, how=0):
    """Digest through one of the equivalent entry points: (raw, err, cooked)."""
    s = CElementsScript(H(script))
    v = ht_arg(ht)
    sv = SIGVERSION_BASE if kind == 'leg' else SIGVERSION_WITNESS_V0
    kw = {} if kind == 'leg' and how % 2 else {'sigversion': sv}
    if amt is not None:
        kw['amount'] = conf(CConfidentialValue, amt)
    if how < 2:
        r, e = raw(lambda: s.raw_sighash(tx, idx, v, **kw))
    else:
        r, e = raw(lambda: RawElementsSignatureHash(s, tx, idx, v, **kw))
    c = observe(lambda: s.sighash(tx, idx, v, **kw))
    return r, e, c


def tap(tx, spent, idx, ht, mode, leaf, script, cs, annex, gen, defaults=False):
    kw = dict(genesis_block_hash=H(gen))
    if ht != 0:
        kw['hashtype'] = SIGHASH_Type(ht)
    if annex:
        kw['annex_hash'] = H(annex)
    csv = struct.unpack('<i', H(cs))[0]
    if csv != -1 or not defaults:
        kw['codeseparator_pos'] = csv
    outs = [mk_out(o, n % 2 == 1) for n, o in enumerate(spent)]
    if mode == 'script':
        s = CElementsScript(H(script))
        return observe(lambda: s.sighash_schnorr(tx, idx, outs, **kw))
    if mode == 'leaf':
        kw['sigversion'] = SIGVERSION_TAPSCRIPT
        if leaf:
            kw['tapleaf_hash'] = H(leaf)
    elif not defaults:
        kw['sigversion'] = SIGVERSION_TAPROOT
    return observe(lambda: ElementsSignatureHashSchnorr(tx, idx, outs, **kw))


# -------------------------------------------------------------------- traces
HTS = ['01000000', '02000000', '03000000', '81000000', '82000000', '83000000',
       '00000000', '80000000', '04000000', '1f000000', '22000000', '43000000',
       'c3000000', 'e2000000', 'ff000000', '03010000', '02000100', 'ffffffff',
       '01000080', 'ffffff7f']


def push(d):
    n = len(d) // 2
    if n < 76:
        return '%02x' % n + d
    if n < 256:
        return '4c%02x' % n + d
    return '4d' + struct.pack('<H', n).hex() + d


def code(big=False):
    """A well-formed script, not a witness program, often with separators."""
    while True:
        s = ''
        for _ in range(G.pick(0, 1, 2, 3, 5)):
            s += G.pick('ab', 'ab', '51', 'ac', '76', '00', 'c4', 'ff', '6a',
                        push(G.h(G.pick(1, 20, 33, 75))), push('ab' * 3),
                        '4c02abab', '4e03000000ababab', '4d0100ab', '4fab')
        if big:
            s += push(G.h(G.pick(252, 253, 300)))
        b = H(s)
        if not (4 <= len(b) <= 42 and (b[0] == 0 or 81 <= b[0] <= 96)
                and b[1] == len(b) - 2):
            return s


ROUTES = ('imm', 'mut', 'gimm', 'append', 'mut2im')


def scripts_in(t):
    return t


def legacy_events(out):
    n = 3000 if THOROUGH else 500
    for k in range(n):
        t = G.tx(nin=G.pick(1, 1, 2, 3, 4), nout=G.pick(0, 1, 2, 3, 4))
        idx = G.pick(*range(len(t['vin'])))
        if G.chance(0.12):
            idx = G.pick(len(t['vin']), len(t['vin']) + 3, -1, -2)
        ht = HTS[k % len(HTS)] if G.chance(0.5) else G.pick(*HTS[:6])
        emit(out, 'leg', t, code(G.chance(0.08)), idx, ht, None, k)
    # every hash type byte
    t = G.tx(3, 3, 'both')
    for b in range(256):
        emit(out, 'leg', t, '51ab76', b % 3, '%02x000000' % b, None, b)
    # many inputs and outputs
    for k in range(3):
        t = G.tx(0, 0)
        t['vin'] = [G.vin(script='') for _ in range(G.pick(252, 253, 254))]
        t['vout'] = [G.vout(script='51') for _ in range(G.pick(252, 253, 254))]
        t['inwit'] = t['outwit'] = []
        for ht in ('01000000', '03000000', '82000000'):
            emit(out, 'leg', t, code(), G.pick(0, 200, 251), ht, None, k)


def emit(out, kind, t, script, idx, ht, amt, k):
    tx = mk_tx(t, ROUTES[k % len(ROUTES)])
    before = observe(tx.serialize)
    r, e, c = one(kind, tx, script, idx, ht, amt, k % 4)
    ev = {'k': kind, 'tx': t, 'script': script, 'idx': idx, 'ht': ht,
          'raw': r, 'err': e, 'cooked': c, 'before': before,
          'after': observe(tx.serialize)}
    if amt is not None:
        ev['amt'] = amt
    out.ev(ev)


def v0_events(out):
    n = 3000 if THOROUGH else 500
    for k in range(n):
        t = G.tx(nin=G.pick(1, 1, 2, 3, 4), nout=G.pick(0, 1, 2, 3, 4))
        if k % 12 == 0:
            coinbase_index(t)
        idx = G.pick(*range(len(t['vin'])))
        ht = HTS[k % len(HTS)] if G.chance(0.5) else G.pick(*HTS[:6])
        s = G.script(G.chance(0.1)) if G.chance(0.5) else code()
        emit(out, 'v0', t, s, idx, ht, G.cvalue('ec'), k)
    t = G.tx(3, 3, 'both')
    for b in range(256):
        emit(out, 'v0', t, '51ab76', b % 3, '%02x000000' % b, G.cvalue('ec'), b)
    for lock in ('00000000', 'ffffff7f', '00000080', 'ffffffff'):
        for ver in ('00000000', '01000000', '00000080', 'ffffffff'):
            t = dict(G.tx(1, 1), lock=lock, ver=ver)
            emit(out, 'v0', t, '51', 0, '01000000', G.cvalue('ec'), 0)


def coinbase_index(t):
    """Give an input that has an issuance or is a peg-in the index of coinbase."""
    for i in t['vin']:
        if G.chance(0.5):
            i['n'] = 'ffffffff'
    return t


def tap_event(out, t, spent, idx, ht, mode, leaf, script, cs, annex, gen, k,
              badlen=False):
    tx = mk_tx(t, ROUTES[k % len(ROUTES)])
    before = observe(tx.serialize)
    res = tap(tx, spent, idx, ht, mode, leaf, script, cs, annex, gen, k % 2)
    out.ev({'k': 'tap', 'tx': t, 'spent': spent, 'idx': idx, 'ht': ht,
            'mode': mode, 'leaf': leaf, 'script': script, 'cs': cs,
            'annex': annex, 'gen': gen, 'badlen': badlen, 'res': res,
            'before': before, 'after': observe(tx.serialize)})


def tap_events(out):
    n = 3000 if THOROUGH else 600
    types = [0, 1, 2, 3, 129, 130, 131]
    wits = ['none', 'null', 'in', 'out', 'both', 'onlyin', 'onlyout', 'both']
    for k in range(n):
        nin = G.pick(1, 1, 2, 3, 4)
        t = G.tx(nin, G.pick(0, 1, 2, 3, 4), wits[k // 5 % 8])
        if k % 12 == 5:
            coinbase_index(t)
        spent = [G.vout() for _ in range(nin)]
        for o in spent:
            if G.chance(0.1):
                o['script'] = G.script(True)
        idx = G.pick(*range(nin))
        mode = G.pick('key', 'leaf', 'script')
        leaf = G.h(32) if mode == 'leaf' else ''
        script = G.script(G.chance(0.1)) if mode == 'script' else ''
        cs = G.pick('ffffffff', '00000000', '05000000', 'ffffff7f')
        annex = G.pick('', '', G.h(32))
        gen = G.h(32)
        ht = types[k % 7]
        bad = False
        if G.chance(0.15):
            w = G.pick('idx', 'neg', 'spent', 'leaf', 'annex', 'gen', 'noleaf')
            if w == 'idx':
                idx = nin + G.pick(0, 1, 5)
            elif w == 'neg':
                idx = -G.pick(1, 2, nin)
            elif w == 'spent':
                spent = G.pick(spent[:-1], spent + [G.vout()])
            elif w == 'leaf' and mode == 'leaf':
                leaf = G.h(G.pick(1, 31, 33, 64))
            elif w == 'annex':
                annex = G.h(G.pick(1, 31, 33, 64))
            elif w == 'gen':
                gen = G.h(G.pick(0, 1, 31, 33))
            elif w == 'noleaf' and mode == 'leaf':
                leaf = ''
        tap_event(out, t, spent, idx, ht, mode, leaf, script, cs, annex, gen,
                  k, bad)
    # signature versions that are not those of the function asked
    for k in range(12):
        t = G.tx(2, 2)
        tx = mk_tx(t, ROUTES[k % len(ROUTES)])
        sp = [mk_out(G.vout(), 0) for _ in range(2)]
        sc = CElementsScript(H('51'))
        amt = conf(CConfidentialValue, G.cvalue('ec'))
        for fn, svs in (('schnorr', (SIGVERSION_BASE, SIGVERSION_WITNESS_V0, 4, -1)),
                        ('raw', (SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT, 4, -1)),
                        ('rawm', (SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT, 4, -1)),
                        ('cooked', (SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT, 4, -1))):
            for sv in svs:
                call = {
                    'schnorr': lambda: ElementsSignatureHashSchnorr(
                        tx, 0, sp, sigversion=sv, genesis_block_hash=b'\x01' * 32).hex(),
                    'raw': lambda: RawElementsSignatureHash(
                        sc, tx, 0, SIGHASH_Type(1), amount=amt, sigversion=sv)[0].hex(),
                    'rawm': lambda: sc.raw_sighash(
                        tx, 0, SIGHASH_Type(1), amount=amt, sigversion=sv)[0].hex(),
                    'cooked': lambda: sc.sighash(
                        tx, 0, SIGHASH_Type(1), amount=amt, sigversion=sv).hex()}[fn]
                r, exc = outcome(call)
                out.ev({'k': 'sigver', 'fn': fn, 'sv': str(sv), 'res': exc or r})
    # every boundary of SINGLE
    for ht in (3, 131):
        for nout in range(4):
            for idx in range(4):
                t = G.tx(4, nout, 'both')
                tap_event(out, t, [G.vout() for _ in range(4)], idx, ht,
                          G.pick('key', 'script'), '', '51', 'ffffffff',
                          G.pick('', G.h(32)), G.h(32), idx)


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    last = None
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        route = ROUTES[n % len(ROUTES)]
        key = (route, json.dumps(c['tx'], sort_keys=True))
        if last is None or last[0] != key:
            last = (key, mk_tx(c['tx'], route))
        tx = last[1]
        kind = c['kind']
        if kind in ('legacy', 'v0'):
            r, e, cooked = one('leg' if kind == 'legacy' else 'v0', tx,
                               c['script'], c['idx'], '%02x000000' % c['ht'],
                               c['amt'] if kind == 'v0' else None, n % 4)
            if c['want'] == '!':
                ok = e == 'T' and r == '01' + '00' * 31
            else:
                ok = r == c['want'] and e == 'F'
        else:
            mode = 'key' if kind == 'key' else 'script'
            r = tap(tx, c['spent'], c['idx'], c['ht'], mode, '', c['script'],
                    c['cs'], c['annex'], c['gen'], n % 2)
            ok = r == ('!ValueError' if c['want'] == '!' else c['want'])
        out.ev(c, c['want'] != '!')
        if not ok:
            res.write(json.dumps(dict(c, clause='replay-%s-digest' % kind,
                                      route=route, got=r)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    setup('elements')
    if sys.argv[1] == 'replay':
        replay(sys.argv[2], sys.argv[3])
        return
    out = Out(sys.argv[3])
    {'legacy': legacy_events, 'v0': v0_events, 'tap': tap_events}[sys.argv[2]](out)
    out.close()


main()
