"""Record what the code does with transactions on the wire (C01, C02, C03, C22)."""
import sys
from io import BytesIO

from elib import *  # noqa
from elib import Gen, Out, observe, outcome
import elib

G = Gen(SEED * 1000003 + 17)


# ------------------------------------------------------------------ C01
def rt_event(t, route, tail):
    tx, exc = outcome(mk_tx, t, route)
    e = {'k': 'rt', 'tx': t, 'route': route, 'tail': tail}
    bad = {'seen': NOTX, 'ser': exc, 'nowit': exc, 'back': NOTX,
           'gback': NOTX, 'mback': NOTX, 'reser': exc, 'eq': exc, 'rest': exc}
    if exc:
        e.update(bad)
        return e
    e['seen'] = see_tx(tx)
    e['ser'] = observe(tx.serialize)
    e['nowit'] = observe(tx.serialize, include_witness=False)
    if e['ser'][:1] == '!':
        bad.update(e)
        return bad
    b = bytes.fromhex(e['ser'])
    back, exc = outcome(CElementsTransaction.deserialize, b)
    e['back'] = NOTX if exc else see_tx(back)
    gback, gexc = outcome(CTransaction.deserialize, b)
    e['gback'] = NOTX if gexc else see_tx(gback)
    mback, mexc = outcome(CMutableTransaction.deserialize, b)
    e['mback'] = NOTX if mexc else see_tx(mback)
    e['reser'] = exc if exc else observe(back.serialize)
    e['eq'] = exc if exc else observe(lambda: back == tx)
    f = BytesIO(b + bytes.fromhex(tail))

    def rd():
        CElementsTransaction.stream_deserialize(f)
        return f.read()
    e['rest'] = observe(rd)
    return e


PARTS = {'in': (mk_in, elib.ab_in, CElementsTxIn, CElementsMutableTxIn),
         'out': (mk_out, elib.ab_out, CElementsTxOut, CElementsMutableTxOut),
         'inwit': (mk_inwit, elib.ab_inwit, CElementsTxInWitness,
                   CElementsMutableTxInWitness),
         'outwit': (mk_outwit, elib.ab_outwit, CElementsTxOutWitness,
                    CElementsMutableTxOutWitness)}
EMPTY = {'in': {'hash': '', 'n': '', 'script': '', 'seq': '', 'pegin': False,
                'iss': {'nonce': '', 'entropy': '', 'amt': '', 'keys': ''}},
         'out': {'asset': '', 'value': '', 'nonce': '', 'script': '00'},
         'inwit': {'ar': '', 'kr': '', 'sw': [], 'pw': []},
         'outwit': {'sp': '', 'rp': ''}}


def part_event(w, j, mut, how):
    mk, ab, icls, mcls = PARTS[w]
    o, exc = outcome(mk, j, mut, how)
    e = {'k': 'part', 'w': w, 'v': j, 'mut': mut}
    if exc:
        e.update(ser=exc, seen=EMPTY[w], ok=exc, back=EMPTY[w])
        return e
    s, x1 = outcome(ab, o)
    e['seen'] = s if not x1 else EMPTY[w]
    e['ser'] = observe(o.serialize)
    back, x2 = outcome(lambda: ab((mcls if mut else icls).deserialize(
        bytes.fromhex(e['ser']))))
    e['ok'] = x2 or 'T'
    e['back'] = back if not x2 else EMPTY[w]
    return e


def strata(quick):
    """Abstract transactions covering the shapes that matter, then random."""
    for wit in ('none', 'null', 'in', 'out', 'both', 'onlyin', 'onlyout'):
        for nin, nout in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 3), (3, 1)):
            yield G.tx(nin, nout, wit)
    for pegin in (False, True):
        for m in 'nec':
            for k in 'nec':
                for cb in (0, 1):
                    t = G.tx(2, 1, 'both')
                    i = G.vin(issuance=False, pegin=pegin, coinbase=False)
                    if i['n'] == 'ffffff3f':
                        i['n'] = 'feffff3f'
                    i['iss'] = {'nonce': G.pick('00' * 32, G.h(32)),
                                'entropy': G.h(32), 'amt': G.cvalue(m),
                                'keys': G.cvalue(k)}
                    t['vin'][cb] = i
                    yield t
    for a in 'nec':
        for v in 'nec':
            for n in 'nec':
                for s in ('', '6a', G.script()):
                    t = G.tx(1, 1)
                    t['vout'][0] = {'asset': G.casset(a), 'value': G.cvalue(v),
                                    'nonce': G.cnonce(n), 'script': s}
                    yield t
    for ver in ('02000000', '01000000', '00000080', 'ffffffff', 'ffffff7f'):
        for lock in ('00000000', '00000080', 'ffffffff', 'ff64cd1d'):
            t = G.tx(1, 1)
            t['ver'], t['lock'] = ver, lock
            yield t
    for n in (252, 253, 254):       # list lengths around the 1/3-byte boundary
        for what in ('vin', 'vout', 'sw', 'pw'):
            t = G.tx(1, 1, 'null')
            if what == 'vin':
                t['vin'] = [G.vin(script='') for _ in range(n)]
            elif what == 'vout':
                t['vout'] = [G.vout(script='') for _ in range(n)]
            G.fill_wit(t, 'both' if what in ('vin', 'vout') and n == 253 else 'null')
            if what in ('sw', 'pw'):
                t['inwit'][0][what] = [G.h(G.pick(0, 1)) for _ in range(n)]
            yield t
    for n in (252, 253, 255, 256, 520, 65535, 65536):   # byte string lengths
        for what in ('script', 'spk', 'ar', 'kr', 'sw', 'pw', 'sp', 'rp'):
            if n > 60000 and quick and what not in ('spk', 'rp', 'ar'):
                continue
            t = G.tx(1, 1, 'null')
            if what == 'script':
                t['vin'][0]['script'] = G.h(n)
            elif what == 'spk':
                t['vout'][0]['script'] = G.h(n)
            elif what in ('sw', 'pw'):
                t['inwit'][0][what] = [G.h(n)]
            elif what in ('ar', 'kr'):
                t['inwit'][0][what] = G.h(n)
            else:
                t['outwit'][0][what] = G.h(n)
            yield t


def do_rt(out):
    setup('elements')
    n = 0
    for t in strata(not THOROUGH):
        routes = [elib.ROUTES[(n + k * 3) % len(elib.ROUTES)] for k in range(2)]
        for r in routes:
            out.ev(rt_event(t, r, G.h(G.pick(0, 1, 4, 5))))
        n += 1
    for _ in range(20000 if THOROUGH else 1200):
        t = G.tx()
        out.ev(rt_event(t, G.pick(*elib.ROUTES), G.h(G.pick(0, 1, 4, 5))))
    for _ in range(6000 if THOROUGH else 500):
        for w in PARTS:
            j = {'in': G.vin, 'out': G.vout, 'inwit': G.inwit,
                 'outwit': G.outwit}[w]()
            out.ev(part_event(w, j, G.chance(0.5), G.pick(0, 1, 2)))


    for _ in range(1500 if THOROUGH else 200):
        out.ev(reserved_event())


def reserved_event():
    """An index using the bits that mark issuances and peg-ins."""
    t = G.tx(G.pick(1, 2, 3), G.pick(0, 1, 2))
    i = t['vin'][G.r.randrange(len(t['vin']))]
    while True:
        i['n'] = G.h(3) + '%02x' % G.r.randrange(64, 256)
        if G.chance(0.5):
            i['n'] = G.pick('000000', '010000', 'ffffff') + i['n'][6:]
        if i['n'] != 'ffffffff':
            break
    tx, exc = outcome(mk_tx, t, G.pick(*elib.ROUTES))
    j, exc2 = outcome(mk_in, i, G.chance(0.5), G.pick(0, 1, 2))
    return {'k': 'reserved', 'tx': t, 'part': i,
            'ser': exc or observe(tx.serialize),
            'nowit': exc or observe(tx.serialize, include_witness=False),
            'id': exc or observe(tx.GetTxid),
            'partser': exc2 or observe(j.serialize)}


# ------------------------------------------------------------------ C02
# A token is (bytes, kind).  Kinds: 'raw', 'cs' (compact size of value), 'cp'
# (confidential prefix), 'flag'.
def cs(n, form=None):
    if form is None:
        form = 1 if n < 253 else 3 if n < 65536 else 5
    if form == 1:
        return bytes([n])
    if form == 3:
        return b'\xfd' + n.to_bytes(2, 'little')
    if form == 5:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def tok_conf(s):
    b = bytes.fromhex(s)
    if not b:
        return [['cp', b'\0']]
    return [['cp', b[:1]], ['raw', b[1:]]]


def tok_var(s):
    b = bytes.fromhex(s)
    return [['cs', len(b)], ['raw', b]]


def tok_stack(st):
    r = [['cs', len(st)]]
    for s in st:
        r += tok_var(s)
    return r


def tokens(t, flag=None):
    def nn(w):
        return any(any(x.values()) for x in w)
    if flag is None:
        flag = 1 if nn(t['inwit']) or nn(t['outwit']) else 0
    r = [['raw', bytes.fromhex(t['ver'])], ['flag', bytes([flag])],
         ['cs', len(t['vin'])]]
    for i in t['vin']:
        n = u32(i['n'])
        has = n != 0xffffffff and (i['iss']['amt'] or i['iss']['keys'])
        if n != 0xffffffff:
            n |= (0x80000000 if has else 0) | (0x40000000 if i['pegin'] else 0)
        r += [['raw', bytes.fromhex(i['hash'])],
              ['n', n.to_bytes(4, 'little')]]
        r += tok_var(i['script']) + [['raw', bytes.fromhex(i['seq'])]]
        if has:
            r += [['raw', bytes.fromhex(i['iss']['nonce'] + i['iss']['entropy'])]]
            r += tok_conf(i['iss']['amt']) + tok_conf(i['iss']['keys'])
    r += [['cs', len(t['vout'])]]
    for o in t['vout']:
        for f in ('asset', 'value', 'nonce'):
            r += tok_conf(o[f])
        r += tok_var(o['script'])
    r += [['raw', bytes.fromhex(t['lock'])]]
    if flag:
        nul = {'ar': '', 'kr': '', 'sw': [], 'pw': []}
        for k in range(len(t['vin'])):
            w = t['inwit'][k] if t['inwit'] else nul
            r += tok_var(w['ar']) + tok_var(w['kr'])
            r += tok_stack(w['sw']) + tok_stack(w['pw'])
        for k in range(len(t['vout'])):
            w = t['outwit'][k] if t['outwit'] else {'sp': '', 'rp': ''}
            r += tok_var(w['sp']) + tok_var(w['rp'])
    return r


def flat(toks):
    return b''.join(cs(*v[1:]) if v[0] == 'cs' else v[1] for v in toks)


def parse_event(b, why):
    e = {'k': 'parse', 'b': b.hex(), 'why': why, 'tx': NOTX, 're': ''}
    tx, exc = outcome(CElementsTransaction.deserialize, b)
    tx2, exc2 = outcome(CMutableTransaction.deserialize, b)
    if (exc is None) != (exc2 is None):
        # the mutable and immutable decoders must agree; report the odd one
        e['ok'] = 'T' if exc is None else 'T'
        tx = tx if exc is None else tx2
        e['tx'] = see_tx(tx)
        e['re'] = '!decoders-disagree'
        return e
    e['ok'] = exc or 'T'
    if exc is None:
        e['tx'] = see_tx(tx)
        e['re'] = observe(tx.serialize)
        if elib.norm(see_tx(tx2)) != elib.norm(e['tx']):
            e['re'] = '!decoders-disagree'
    return e


def small():
    """A transaction with short scripts, so that mutants stay cheap."""
    t = G.tx(G.pick(0, 1, 1, 2), G.pick(0, 1, 1, 2))
    return t


def mutants(t):
    toks = tokens(t)
    b = flat(toks)
    yield b, 'valid'
    # flag byte
    for f in (0, 1, 2, 3, 0x7f, 0x80, 0xff):
        m = [list(x) for x in toks]
        m[1][1] = bytes([f])
        yield flat(m), 'flag'
    # witness section added although everything in it is empty
    t2 = dict(t)
    t2['inwit'] = t2['outwit'] = []
    yield flat(tokens(t2, flag=1)), 'superfluous-witness'
    yield flat(tokens(t, flag=1)), 'forced-witness'
    yield flat(tokens(t, flag=0)), 'dropped-witness'
    # truncation and trailing bytes
    for n in sorted({0, 1, 3, 4, 5, 6, len(b) // 2, len(b) - 5, len(b) - 2,
                     len(b) - 1, G.r.randrange(len(b))}):
        if 0 <= n < len(b):
            yield b[:n], 'truncated'
    for tail in ('00', '01', '00000000', b.hex()[:20]):
        yield b + bytes.fromhex(tail), 'trailing'
    # every prefix byte and every length prefix, in all wrong forms
    for k, x in enumerate(toks):
        if x[0] == 'cp':
            for p in G.r.sample([0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 255], 3):
                m = [list(y) for y in toks]
                m[k][1] = bytes([p])
                yield flat(m), 'prefix'
            for p in G.r.sample([0, 1, 2, 3, 8, 9, 10, 11], 1):
                # with the length the new prefix asks for
                m = [list(y) for y in toks]
                m[k][1] = bytes([p])
                if k + 1 < len(m) and m[k + 1][0] == 'raw':
                    m[k + 1][1] = G.b(32 if p else 0)
                yield flat(m), 'prefix-and-length'
        elif x[0] == 'cs':
            for form in (3, 5, 9):
                if G.chance(0.34):
                    m = [list(y) for y in toks]
                    m[k] = ['cs', x[1], form]
                    yield flat(m), 'nonminimal'
            for d in (-1, 1):
                if x[1] + d >= 0 and G.chance(0.4):
                    m = [list(y) for y in toks]
                    m[k] = ['cs', x[1] + d]
                    yield flat(m), 'count'
            if G.chance(0.1):
                m = [list(y) for y in toks]
                m[k] = ['cs', G.pick(0xfffd, 0x1000000, 0x2000001, 0xffffffff,
                                     2**40, 2**63, 2**64 - 1),
                        9]
                yield flat(m), 'huge-length'
        elif x[0] == 'n':
            for add in (0x80, 0x40, 0xc0):
                m = [list(y) for y in toks]
                m[k][1] = x[1][:3] + bytes([x[1][3] ^ add])
                yield flat(m), 'flags'
            if G.chance(0.5):   # issuance flagged, with null amounts
                m = [list(y) for y in toks]
                m[k][1] = x[1][:3] + bytes([(x[1][3] & 0x3f) | 0x80])
                if x[1] != b'\xff' * 4 and not x[1][3] & 0x80:
                    m.insert(k + 4, ['raw', G.b(64) + b'\0\0'])
                    yield flat(m), 'null-issuance'
            if G.chance(0.3):
                m = [list(y) for y in toks]
                m[k][1] = b'\xff' * 4
                yield flat(m), 'coinbase-index'
    # random byte changes, swaps, duplications
    for _ in range(6):
        if b:
            i = G.r.randrange(len(b))
            c = bytearray(b)
            c[i] = G.pick(0, 1, 2, 3, 8, 10, 0xfd, 0xfe, 0xff, G.r.randrange(256))
            yield bytes(c), 'byte'
    for _ in range(2):
        m = [list(y) for y in toks]
        i = G.r.randrange(len(m))
        if G.chance(0.5):
            del m[i]
        else:
            m.insert(i, m[i])
        yield flat(m), 'token'


def do_parse(out):
    setup('elements')
    n = 2500 if THOROUGH else 150
    seen = set()
    for k in range(n):
        t = small()
        for b, why in mutants(t):
            if b in seen:
                continue
            seen.add(b)
            out.ev(parse_event(b, why))
    # exhaustive truncation of a few transactions
    for k in range(20 if THOROUGH else 4):
        t = G.tx(1, 1, 'both')
        b = flat(tokens(t))
        for n in range(len(b)):
            if b[:n] not in seen:
                out.ev(parse_event(b[:n], 'truncated'))
    for n in (252, 253):
        t = G.tx(1, 1, 'null')
        t['vout'] = [G.vout(script='') for _ in range(n)]
        t['outwit'] = []
        for form in (1, 3, 5, 9):
            toks = tokens(t)
            if form == 1 and n > 252:
                continue
            for x in toks:
                if x[0] == 'cs' and x[1] == n:
                    x.append(form)
            out.ev(parse_event(flat(toks), 'count-form'))
    for n in (252, 253, 65535, 65536):
        for form in (1, 3, 5, 9):
            if (form == 1 and n > 252) or (form == 3 and n > 65535):
                continue
            for what in ('spk', 'rp'):
                t = G.tx(1, 1, 'null')
                t['vin'][0] = G.vin(issuance=False, coinbase=False, script='')
                if what == 'spk':
                    t['vout'][0]['script'] = G.h(n)
                else:
                    t['vout'][0]['script'] = ''
                    t['outwit'][0]['rp'] = G.h(n)
                toks = tokens(t)
                for x in toks:
                    if x[0] == 'cs' and x[1] == n:
                        x.append(form)
                out.ev(parse_event(flat(toks), 'length-form'))
    # parts
    for _ in range(3000 if THOROUGH else 250):
        for w in PARTS:
            mk, ab, icls, mcls = PARTS[w]
            j = {'in': G.vin, 'out': G.vout, 'inwit': G.inwit,
                 'outwit': G.outwit}[w]()
            o, exc = outcome(mk, j)
            b = b'' if exc else o.serialize()
            c = bytearray(b)
            how = G.pick('valid', 'trunc', 'extend', 'byte', 'byte')
            if how == 'trunc' and c:
                c = c[:G.r.randrange(len(c))]
            elif how == 'extend':
                c += G.b(1)
            elif how == 'byte' and c:
                c[G.r.randrange(len(c))] = G.pick(0, 1, 2, 8, 10, 253, 255)
            v, exc = outcome(lambda: ab((mcls if G.chance(0.5) else icls)
                                        .deserialize(bytes(c))))
            out.ev({'k': 'parsepart', 'w': w, 'b': bytes(c).hex(),
                    'ok': exc or 'T', 'v': v if not exc else EMPTY[w]})


# ------------------------------------------------------------------ C03
CONF = {'asset': CConfidentialAsset, 'value': CConfidentialValue,
        'nonce': CConfidentialNonce}


def conf_open(kind, o):
    if kind == 'asset':
        a = o.to_asset()
        if not isinstance(a, CAsset):
            return '!not-an-asset'
        return a.data
    v = o.to_amount()
    return struct.pack('>q', v)


def conf_event(kind, raw, bt):
    cls = CONF[kind]
    e = {'k': 'conf', 'kind': kind, 'raw': raw.hex()}
    o, exc = outcome(cls, bt(raw))
    e['res'] = exc or 'ok'
    if exc:
        return e
    e['raw2'] = observe(lambda: o.commitment)
    e['null'] = observe(o.is_null)
    e['expl'] = observe(o.is_explicit)
    e['comm'] = observe(o.is_commitment)
    e['valid'] = observe(o.is_valid)
    e['ser'] = observe(o.serialize)
    e['open'] = '' if kind == 'nonce' else observe(conf_open, kind, o)
    return e


def do_conf(out):
    setup('elements')
    # every prefix byte at every accepted length, and all lengths 0..70
    for kind in CONF:
        for n in (1, 9, 33):
            for p in range(256):
                raw = bytes([p]) + G.b(n - 1)
                out.ev(conf_event(kind, raw, G.pick(bytes, bytearray)))
        for n in range(71):
            for p in (0, 1, 2, 8, 10):
                raw = (bytes([p]) + G.b(n - 1)) if n else b''
                out.ev(conf_event(kind, raw, bytes))
        for n in (128, 255, 256, 1000):
            out.ev(conf_event(kind, b'\x01' + G.b(n - 1), bytes))
        # decoding: every prefix with body lengths around the right ones
        for p in range(256):
            for n in (0, 7, 8, 9, 31, 32, 33):
                if p > 16 and n not in (0, 8, 32):
                    continue
                b = bytes([p]) + G.b(n)
                o, exc = outcome(CONF[kind].deserialize, b)
                out.ev({'k': 'confparse', 'kind': kind, 'b': b.hex(),
                        'res': exc or 'ok',
                        'raw': '' if exc else observe(lambda: o.commitment)})
        o, exc = outcome(CONF[kind].deserialize, b'')
        out.ev({'k': 'confparse', 'kind': kind, 'b': '', 'res': exc or 'ok',
                'raw': ''})
    # explicit amounts and assets survive
    amounts = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31,
               2**32 - 1, 2**32, 10**8, 21 * 10**14, 21 * 10**14 + 1,
               2**62, 2**63 - 1, -1, -2**63]
    amounts += [G.r.getrandbits(G.r.randrange(1, 63))
                for _ in range(3000 if THOROUGH else 400)]
    for v in amounts:
        for mk in (CConfidentialValue, CConfidentialValue.from_amount):
            o, exc = outcome(mk, v)
            out.ev({'k': 'conffrom', 'kind': 'value',
                    'given': struct.pack('>q', v).hex(),
                    'raw': exc or observe(lambda: o.commitment),
                    'open': exc or observe(conf_open, 'value', o)})
    for _ in range(2000 if THOROUGH else 300):
        a = G.pick(bytes(32), b'\x01' * 32, G.b(32), G.b(32), G.b(32))
        for mk in (CConfidentialAsset, CConfidentialAsset.from_asset):
            o, exc = outcome(lambda: mk(CAsset(a)))
            out.ev({'k': 'conffrom', 'kind': 'asset', 'given': a.hex(),
                    'raw': exc or observe(lambda: o.commitment),
                    'open': exc or observe(conf_open, 'asset', o)})
    # fee outputs: all combinations of field kinds and short scripts, plus
    # fields carrying foreign prefixes
    def odd(n):
        return G.pick('02', '00', '0c', 'ff') + G.h(n - 1)
    for a in ('n', 'e', 'c', 'x'):
        for v in ('n', 'e', 'c', 'x'):
            for nn in 'nec':
                for s in ('', '6a', '51', '00', G.h(25)):
                    for _ in range(6 if THOROUGH else 2):
                        j = {'asset': odd(33) if a == 'x' else G.casset(a),
                             'value': odd(G.pick(9, 33)) if v == 'x'
                             else G.cvalue(v),
                             'nonce': G.cnonce(nn), 'script': s}
                        mut = G.chance(0.5)
                        o, exc = outcome(mk_out, j, mut)
                        out.ev({'k': 'fee', 'v': j, 'mut': mut,
                                'fee': exc or observe(o.is_fee),
                                'null': exc or observe(o.is_null)})
    for _ in range(2000 if THOROUGH else 150):
        t = G.tx(G.pick(0, 1, 2, 3), 1, 'none')
        for i in t['vin']:
            if G.chance(0.6):
                i['iss'] = G.iss()
                i['iss'].update(amt=G.cvalue(), keys=G.cvalue())
        tx, exc = outcome(mk_tx, t, G.pick(*elib.ROUTES))
        num, exc = outcome(lambda: int(tx.num_issuances))
        out.ev({'k': 'iss', 'tx': t, 'num': -1 if exc else num,
                'nulls': [observe(i.assetIssuance.is_null) for i in tx.vin]})


# ------------------------------------------------------------------ C22
def do_size(out):
    from bitcointx.wallet import CCoinAddress  # noqa
    setup('elements')
    n = 0
    for t in strata(not THOROUGH):
        n += 1
        for r in (elib.ROUTES[n % 8], elib.ROUTES[(n + 3) % 8]):
            tx, exc = outcome(mk_tx, t, r)
            v, exc = outcome(lambda: int(tx.get_virtual_size()))
            out.ev({'k': 'vsize', 'tx': t, 'route': r, 'vsize': -1 if exc else v})
    for _ in range(20000 if THOROUGH else 1500):
        t, r = G.tx(), G.pick(*elib.ROUTES)
        tx, exc = outcome(mk_tx, t, r)
        v, exc = outcome(lambda: int(tx.get_virtual_size()))
        out.ev({'k': 'vsize', 'tx': t, 'route': r, 'vsize': -1 if exc else v})
    import addrlib
    for chain in ('elements', 'elements/liquidv1'):
        setup(chain)
        for _ in range(100 if THOROUGH else 8):
            for kind in addrlib.KINDS:
                for c in (False, True):
                    a, cls = addrlib.make(G, chain, kind, c)

                    def real(a=a):
                        s = a.to_scriptPubKey()
                        o = CElementsTxOut(
                            CConfidentialValue(b'\x08' + G.b(32) if c else
                                               b'\x01' + G.b(8)),
                            s,
                            CConfidentialAsset(b'\x0a' + G.b(32) if c else
                                               b''),
                            CConfidentialNonce(b'\x02' + G.b(32) if c else b''))
                        return len(o.serialize())
                    r, x1 = outcome(real)
                    i, x2 = outcome(lambda: int(a.get_output_size()))
                    k, x3 = outcome(lambda: int(cls.get_output_size()))
                    out.ev({'k': 'outsize', 'c': c, 'chain': chain,
                            'kind': kind, 'pl': addrlib.payload(a, c).hex(),
                            'real': -1 if x1 else r, 'inst': -1 if x2 else i,
                            'cls': -1 if x3 else k})


if __name__ == '__main__':
    o = Out(sys.argv[2])
    {'rt': do_rt, 'parse': do_parse, 'conf': do_conf,
     'size': do_size}[sys.argv[1]](o)
    o.close()
