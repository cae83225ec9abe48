"""Record address operations (C10 C11 C12), or replay BlechMC / AddressMC.

d_addr.py blech|conf|str OUT
d_addr.py replay|replayconf CASES RES
"""
import sys

from elib import *  # noqa
from elib import Gen, Out, observe, outcome
import bitcointx.wallet as BW
from bitcointx.core.key import CPubKey, CKey
from bitcointx.core.script import CBitcoinScript
from bitcointx.wallet import CCoinExtKey
import elementstx.wallet as W
import elementstx.liquid_addr as LA
from elementstx.blech32 import CBlech32Data
import addrlib
from addrlib import KINDS, CHAINS, PLEN

G = Gen(SEED * 15485863 + 3)
ACTIVES = CHAINS + ('bitcoin',)
MID = {'elements': 'Elements', 'elements/liquidv1': 'ElementsLiquidV1', 'any': 'Coin'}


def class_of(net, kind, enc, conf):
    c = 'Confidential' if conf == 'conf' else ''
    if kind != 'any':
        return getattr(W, kind.upper() + MID[net] + c + 'Address')
    pre = {'base58': 'CBase58', 'bech32': 'CBech32', 'blech32': 'CBlech32',
           'any': 'C'}[enc]
    return getattr(W, pre + MID[net] + c + 'Address')


CLASSES = [(n, k, 'any', c) for n in MID for k in KINDS for c in ('plain', 'conf')]
CLASSES += [(n, 'any', e, c) for n in MID for e, c in (
    ('base58', 'any'), ('base58', 'conf'), ('bech32', 'plain'),
    ('blech32', 'conf'), ('any', 'any'), ('any', 'conf'))]


def show(a):
    return type(a).__name__ + ':' + a.to_bytes().hex()


def read(cls, s):
    r, exc = outcome(cls, s)
    return exc or show(r)


def codes(s):
    return [ord(c) for c in s]


# ------------------------------------------------------------------- blech32
def versioned(hrp):
    class D(CBlech32Data):
        blech32_hrp = hrp
    return D


DATA = {h: versioned(h) for h in ('el', 'lq', 'ert', 'x', 'a1b', 'split')}


def dec_res(hrp, s):
    r, exc = outcome(LA.decode, hrp, s)
    if exc or r == (None, None):
        res = 'none'
    else:
        res = '%d:%s' % (r[0], bytes(r[1]).hex())
    d, exc = outcome(DATA[hrp], s)
    return res, ('none' if exc else
                 '%d:%s' % (d.blech32_witness_version, d.to_bytes().hex()))


def dec_event(out, hrp, s, nontrivial=True):
    res, c = dec_res(hrp, s)
    out.ev(dict(k='dec', hrp=hrp, s=codes(s), res=res, cls=c), nontrivial)


CHARS = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


GENS = (0x7d52fba40bd886, 0x5e8dbf1a03950c, 0x1c3a3c74072a18,
        0x385d72fa0e5139, 0x7093e5a608865b)


def checksum(hrp, values, const):
    """Blech32 checksum of arbitrary integers, as the definition computes it."""
    chk = 1
    for v in ([ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]
              + list(values) + [0] * 12):
        top = chk >> 55
        chk = (chk & 0x7fffffffffffff) << 5 ^ v
        for i in range(5):
            chk ^= GENS[i] if (top >> i) & 1 else 0
    chk ^= const
    return [(chk >> 5 * (11 - i)) & 31 for i in range(12)]


def foreign(hrp, s):
    """Texts holding a character outside the alphabet, or the separator, with
    a checksum that is right if it counted as some value."""
    vals = [CHARS.index(c) for c in s[len(hrp) + 1:-12]]
    for pos in (0, 1, len(vals) // 2, len(vals) - 1):
        for c in G.r.sample('bio!-/:@[`{~_|', 3) + ['b', 'i', 'o']:
            for v in (-1, 0, 31, 32, ord(c) & 31, vals[pos]):
                for const in (1, 0x455972a3350f7a1):
                    w = vals[:pos] + [v] + vals[pos + 1:]
                    t = [CHARS[x] for x in vals + checksum(hrp, w, const)]
                    t[pos] = c
                    yield hrp + '1' + ''.join(t)


def blech_events(out):
    good = []
    lens = [53, 65] + [2, 3, 20, 32, 34, 40, 41, 52, 54, 64, 66, 72, 73]
    for hrp in DATA:
        for ver in range(0, 19):
            for n in (lens if hrp in ('el', 'lq') else [53, 65]):
                if ver not in (0, 1, 2, 16, 17) and n not in (53, 65):
                    continue
                p = G.pick(G.b(n), G.b(n), b'\x00' * n, b'\xff' * n)
                r, exc = outcome(LA.encode, hrp, ver, p)
                def viac():
                    return str(DATA[hrp].from_bytes(p, witver=ver))
                c, exc2 = outcome(viac)
                out.ev(dict(k='enc', hrp=hrp, ver=ver, prog=p.hex(),
                            res='none' if exc or r is None else r,
                            cls='none' if exc2 or c is None else c))
                if not exc and r and ver <= 16:
                    good.append((hrp, r))
        for n in (0, 1, 74, 75, 100):
            for ver in (0, 1):
                p = G.b(n)
                r, exc = outcome(LA.encode, hrp, ver, p)
                out.ev(dict(k='enc', hrp=hrp, ver=ver, prog=p.hex(),
                            res='none' if exc or r is None else r, cls='none'
                            if outcome(lambda: str(DATA[hrp].from_bytes(p, witver=ver)))[1]
                            else 'some'))
    for hrp, s in good:
        for h in DATA:
            dec_event(out, h, s)
        dec_event(out, hrp, s.upper())
        for bad in (' ' + s, s + ' ', s + '\n', s[:-1], s[1:], s + s[-1],
                    s.capitalize(), s[:3] + s[3:].upper(), s.replace(hrp, hrp.upper(), 1),
                    hrp + s[len(hrp) + 1:], s.replace('1', '11', 1), 'e' + s,
                    s[:5] + '1' + s[6:], s[:5] + 'é' + s[6:],
                    s[:5] + 'İ' + s[6:], s[:-1] + 'ſ'):
            dec_event(out, hrp, bad)
    # the longest texts there may be
    for n, size in ((53, 899), (53, 900), (53, 901), (53, 902), (65, 881),
                    (65, 882), (73, 869), (2, 83)):
        for ver in (0, 1, 16):
            hrp = ''.join(G.pick(*'abxyz1') for _ in range(size))
            DATA[hrp] = versioned(hrp)
            p = G.b(n)
            r, exc = outcome(LA.encode, hrp, ver, p)
            c, exc2 = outcome(lambda: str(DATA[hrp].from_bytes(p, witver=ver)))
            out.ev(dict(k='enc', hrp=hrp, ver=ver, prog=p.hex(),
                        res='none' if exc or r is None else r,
                        cls='none' if exc2 or c is None else c))
            vals = [ver] + LA.convertbits(p, 8, 5)
            t = hrp + '1' + ''.join(CHARS[x] for x in vals + checksum(
                hrp, vals, 0x455972a3350f7a1 if ver else 1))
            dec_event(out, hrp, t)
            dec_event(out, hrp, t.upper())
            dec_event(out, hrp, t[:-1] + G.pick(*CHARS))
            del DATA[hrp]
    for hrp, s in G.r.sample(good, 12 if THOROUGH else 4):
        for t in foreign(hrp, s):
            dec_event(out, hrp, t)
            if G.chance(.1):
                dec_event(out, hrp, t.upper())
    # up to four wrong characters
    for k in range(60000 if THOROUGH else 6000):
        hrp, s = G.pick(*good)
        t = list(s)
        lo = 0 if G.chance(.15) else len(hrp) + 1
        for i in G.r.sample(range(lo, len(s)), G.pick(1, 2, 3, 4)):
            t[i] = G.pick(*[c for c in CHARS if c != t[i]])
        dec_event(out, hrp, ''.join(t))
    for k in range(20000 if THOROUGH else 2000):
        hrp, s = G.pick(*good)
        m = k % 4
        if m == 0:
            i = G.r.randrange(len(s))
            s = s[:i] + s[i + G.pick(1, 2, 5):]
        elif m == 1:
            i = G.r.randrange(len(s) + 1)
            s = s[:i] + ''.join(G.pick(*CHARS) for _ in range(G.pick(1, 1, 2, 8))) + s[i:]
        elif m == 2:
            i = G.r.randrange(len(s))
            s = s[:i] + chr(G.r.randrange(1, 160)) + s[i + 1:]
        else:
            s = hrp + '1' + ''.join(G.pick(*CHARS) for _ in range(G.pick(0, 11, 12, 13, 30, 98)))
        dec_event(out, hrp, s)
    for s in ('', '1', 'el', 'el1', 'el1' + 'q' * 12, 'el1' + 'q' * 13, 'q' * 50,
              'el1' + 'q' * 997, 'el1' + 'q' * 998):
        dec_event(out, 'el', s)


# -------------------------------------------------------------- confidential
def conf_classes(net, kind, active):
    """Classes from_unconfidential() is called on, for an address of net/kind."""
    r = [class_of(net, kind, 'any', 'conf'), class_of(net, 'any', 'any', 'conf')]
    if active == net:
        r += [class_of('any', kind, 'any', 'conf'), class_of('any', 'any', 'any', 'conf'),
              class_of(net, 'any', 'base58' if kind in ('p2pkh', 'p2sh') else 'blech32', 'conf')]
    return r


def attempt(fn):
    try:
        r = fn()
    except Exception as e:
        return '!' + type(e).__name__
    return bytes(r).hex() if isinstance(r, bytes) else repr(r)


def safe(fn):
    return observe(fn)


def plain_of(net, kind, payload, how):
    c = class_of(net, kind, 'any', 'plain')
    if how == 0:
        return c.from_bytes(payload)
    if how == 1:
        return c(str(c.from_bytes(payload)))
    if how == 2:
        spk = c.from_bytes(payload).to_scriptPubKey()
        return c.from_scriptPubKey(spk)
    return class_of(net, 'any', 'any', 'any')(str(c.from_bytes(payload)))


def mk_event(net, kind, payload, pub, active, how):
    select_chain_params(active)
    a = plain_of(net, kind, payload, how % 4)
    before = show(a)
    cl = conf_classes(net, kind, active)
    cls = cl[how % len(cl)]
    arg = (CPubKey, bytes, bytearray)[how % 3](pub)
    c, exc = outcome(cls.from_unconfidential, a, arg)
    e = dict(k='mk', net=net, kind=kind, payload=payload.hex(), pub=pub.hex(),
             plain=before, plaintext=str(a), conf=exc or show(c))
    e.update(text='', back='', equal='', unconf='', pubback='', spk='',
             spkplain=safe(lambda: bytes(a.to_scriptPubKey())), redeem='',
             redeemplain=attempt(a.to_redeemScript), plain2='')
    if not exc:
        e['text'] = safe(lambda: str(c))
        # read by another user, perhaps with another chain selected
        act2 = G.pick(*ACTIVES)
        select_chain_params(act2)
        cl2 = [class_of(net, kind, 'any', 'conf'), class_of(net, 'any', 'any', 'conf'),
               class_of(net, 'any', 'any', 'any')]
        if act2 == net:
            cl2 += [class_of('any', kind, 'any', 'conf'), class_of('any', 'any', 'any', 'any')]
        r, exc2 = outcome(G.pick(*cl2), e['text'])
        e['back'] = exc2 or show(r)
        e['equal'] = 'F' if exc2 else observe(
            lambda: r == c and hash(r) == hash(c) and type(r) is type(c))
        src = G.pick(c, c, c if exc2 else r)
        e['unconf'] = safe(lambda: show(src.to_unconfidential()))
        e['pubback'] = safe(lambda: bytes(src.blinding_pubkey)
                            if isinstance(src.blinding_pubkey, CPubKey) else 'type')
        e['spk'] = safe(lambda: bytes(src.to_scriptPubKey()))
        e['redeem'] = attempt(src.to_redeemScript)
        select_chain_params(active)
    e['plain2'] = show(a)
    return e


def bad_pubs():
    p = addrlib.pub(G)
    while True:
        q = G.pick(b'\x02', b'\x03') + G.b(32)
        if not CPubKey(q).is_fullyvalid():
            break
    k = CKey.from_secret_bytes(G.b(32), False)
    return [b'', p[:-1], p[1:], b'\x04' + p[1:], b'\x00' + p[1:], b'\x05' + p[1:], p + b'\x00',
            b'\x00' * 33, b'\x02' + b'\xff' * 32, q, bytes(k.pub), b'\x06' + bytes(k.pub)[1:],
            b'\x07' + bytes(k.pub)[1:], bytes(k.pub)[:64]]


def conf_events(out):
    n = 0
    for rep in range(20 if THOROUGH else 3):
        for active in ACTIVES:
            for net in CHAINS:
                for kind in KINDS:
                    for how in range(12):
                        n += 1
                        ln = PLEN[kind]
                        pl = G.b(ln) if kind != 'p2tr' else addrlib.pub(G)[1:]
                        if how == 11:
                            pl = G.pick(b'\x00' * ln, b'\x00\x00' + G.b(ln - 2), b'\xff' * ln)
                        out.ev(mk_event(net, kind, pl, addrlib.pub(G), active, n))

    for active in ACTIVES:
        select_chain_params(active)
        for net in CHAINS:
            for kind in KINDS:
                pub = addrlib.pub(G)
                a = plain_of(net, kind, pub[1:1 + PLEN[kind]], 0)
                c = class_of(net, kind, 'any', 'conf').from_unconfidential(a, pub)
                for x in (a, c, c.to_unconfidential(),
                          class_of(net, 'any', 'any', 'any')(str(c))):
                    out.ev(dict(k='mem', net=net, kind=kind, what=show(x), pub=pub.hex(),
                                of=[dict(net=n, kind=k, enc=e, conf=f, inst=observe(
                                    lambda: isinstance(x, class_of(n, k, e, f))),
                                    sub=observe(lambda: issubclass(type(x), class_of(n, k, e, f))))
                                    for n, k, e, f in CLASSES]))

    def refused(what, fn):
        r, exc = outcome(fn)
        out.ev(dict(k='ref', what=what, res=exc or 'accepted ' + repr(r)))

    for active in ACTIVES:
        select_chain_params(active)
        for net in CHAINS:
            for kind in KINDS:
                a = plain_of(net, kind, G.b(PLEN[kind]), 0)
                pub = addrlib.pub(G)
                for cls in conf_classes(net, kind, active):
                    for p in bad_pubs():
                        for t in (bytes, CPubKey):
                            refused('invalid-blinding-key-accepted',
                                    lambda: cls.from_unconfidential(a, t(p)))
                    refused('invalid-blinding-key-accepted',
                            lambda: cls.from_unconfidential(a, pub.hex()))
                other = [x for x in CHAINS if x != net][0]
                for k2 in KINDS:
                    if k2 != kind:
                        refused('address-of-another-kind-accepted',
                                lambda: class_of(net, k2, 'any', 'conf')
                                .from_unconfidential(a, pub))
                    refused('address-of-another-network-accepted',
                            lambda: class_of(other, k2, 'any', 'conf')
                            .from_unconfidential(a, pub))
                refused('address-of-another-network-accepted',
                        lambda: class_of(other, 'any', 'any', 'conf').from_unconfidential(a, pub))
                if active != net:
                    for k2 in (kind, 'any'):
                        refused('address-of-another-network-accepted',
                                lambda: class_of('any', k2, 'any', 'conf')
                                .from_unconfidential(a, pub))
                # something that is not a plain address
                c = class_of(net, kind, 'any', 'conf').from_bytes(pub + bytes(a))
                for cls in conf_classes(net, kind, active):
                    refused('confidential-address-blinded-again',
                            lambda: cls.from_unconfidential(c, pub))
                    for x in (bytes(a), None, a.to_scriptPubKey()):
                        refused('non-address-accepted', lambda: cls.from_unconfidential(x, pub))
                    if kind in ('p2tr', 'p2wsh', 'p2wpkh'):
                        b = getattr(BW, kind.upper() + 'BitcoinAddress').from_bytes(bytes(a))
                    else:
                        b = getattr(BW, kind.upper() + 'BitcoinAddress').from_bytes(bytes(a))
                    refused('address-of-another-network-accepted',
                            lambda: cls.from_unconfidential(b, pub))


# ------------------------------------------------------------------- strings
def b58(payload):
    from bitcointx.base58 import encode
    from bitcointx.core import Hash
    return encode(payload + Hash(payload)[:4])


def res_all(fn, only=None):
    r = []
    for n, k, e, c in CLASSES:
        if only and (n, k, e, c) not in only:
            continue
        r.append(dict(net=n, kind=k, enc=e, conf=c, out=fn(class_of(n, k, e, c))))
    return r


def str_event(out, s, active, origin=''):
    select_chain_params(active)
    only = None
    if active == 'bitcoin':
        only = [c for c in CLASSES if c[0] != 'any' or origin]
    out.ev(dict(k='str', s=codes(s), active=active, origin=origin,
                res=res_all(lambda c: read(c, s), only)))


def bitcoin_strings():
    r = []
    for mid in ('Bitcoin', 'BitcoinTestnet', 'BitcoinRegtest', 'BitcoinSignet'):
        for k in KINDS:
            r.append(str(getattr(BW, k.upper() + mid + 'Address').from_bytes(G.b(PLEN[k]))))
    return r


def str_events(out):
    made = []
    for rep in range(12 if THOROUGH else 2):
        for net in CHAINS:
            for kind in KINDS:
                for cf in (False, True):
                    a, _ = addrlib.make(G, net, kind, cf)
                    made.append(str(a))
                    for active in ACTIVES:
                        str_event(out, str(a), active, type(a).__name__)
    for s in bitcoin_strings():
        for active in CHAINS:
            str_event(out, s, active)
    pub = addrlib.pub(G)
    odd = []
    for net, (pkh, sh, cf) in {'e': (235, 75, 4), 'l': (57, 39, 12)}.items():
        for pre in (bytes([pkh]), bytes([sh]), bytes([cf, pkh]), bytes([cf, sh]), bytes([cf]),
                    bytes([pkh, cf]), bytes([cf, cf]), bytes([pkh, pkh])):
            for n in (0, 1, 19, 20, 21, 32, 33, 52, 53, 54, 65):
                odd.append(b58(pre + (pub + G.b(40))[:n]))
                odd.append(b58(pre + G.b(n) if n < 33 else pre + pub + G.b(n - 33)))
    for h in ('ert', 'el', 'ex', 'lq', 'bc'):
        import bitcointx.segwit_addr as SA
        for ver, n in ((0, 20), (0, 32), (1, 32), (1, 20), (1, 33), (2, 32), (16, 2)):
            odd.append(SA.encode(h, ver, G.b(n)) or '')
        for ver, n in ((0, 20), (0, 32), (1, 32), (1, 20), (2, 32), (1, 33), (16, 7)):
            odd.append(LA.encode(h, ver, pub + G.b(n)) or '')
    for s in odd:
        str_event(out, s, G.pick(*CHAINS))
    for k in range(2400 if THOROUGH else 400):
        s = G.pick(*made)
        m = k % 6
        i = G.r.randrange(len(s))
        if m == 0:
            s = s[:i] + G.pick('1', 'q', '2', 'Z', 'z', '0', 'O', ' ') + s[i + 1:]
        elif m == 1:
            s = s[:i] + s[i + 1:]
        elif m == 2:
            s = s.upper()
        elif m == 3:
            s = G.pick('1' + s, s + '1', ' ' + s, s + ' ', s + '\n', '')
        elif m == 4:
            s = s.swapcase()
        else:
            s = s[:4] + s[4:].upper()
        str_event(out, s, G.pick(*CHAINS))
    # scripts
    scripts = []
    for rep in range(8 if THOROUGH else 2):
        for kind in KINDS:
            for net in CHAINS:
                scripts.append(bytes(addrlib.make(G, net, kind, False)[0].to_scriptPubKey()).hex())
    scripts += ['', '51', '6a', '00', '5120' + G.h(31), '5120' + G.h(33), '5220' + G.h(32),
                '0014' + G.h(19), '0014' + G.h(21), '0020' + G.h(31), '0015' + G.h(21),
                '6020' + G.h(32), '0014' + G.h(20) + '00', 'a914' + G.h(20) + '88',
                'a914' + G.h(20), 'a913' + G.h(19) + '87', '76a914' + G.h(20) + '87',
                '76a914' + G.h(20) + '88', '76a913' + G.h(19) + '88ac', '4c14' + G.h(20),
                '004c14' + G.h(20), '514c20' + G.h(32), '21' + addrlib.pub(G).hex() + 'ac',
                'a94c14' + G.h(20) + '87', '76a94c14' + G.h(20) + '88ac',
                '0120' + G.h(32), '4f20' + G.h(32), '5014' + G.h(20), '6114' + G.h(20)]
    scripts += [G.script() for _ in range(100 if THOROUGH else 30)]
    for s in scripts:
        for active in ACTIVES:
            select_chain_params(active)
            only = [c for c in CLASSES if c[0] != 'any' or active != 'bitcoin']

            def fs(cls, s=s):
                r, exc = outcome(cls.from_scriptPubKey, CElementsScript(H(s)))
                return exc or show(r)
            out.ev(dict(k='spk', script=s, active=active, res=res_all(fs, only)))
    raw_events(out)
    key_events(out)


def raw_events(out):
    """Addresses built from bytes of every length, with and without an
    explicit witness version."""
    for active in ACTIVES:
        select_chain_params(active)
        for net in CHAINS:
            for kind in KINDS:
                for cf in ('plain', 'conf'):
                    cls = class_of(net, kind, 'any', cf)
                    blech = hasattr(cls, 'blech32_hrp')
                    for n in list(range(0, 24)) + [31, 32, 33, 34, 40, 52, 53, 54, 64, 65, 66, 73, 86, 130]:
                        d = (addrlib.pub(G) + G.b(n))[:n]
                        for v in ([-1, 0, 1, G.pick(2, 16), 17] if blech and n in (20, 32, 53, 65)
                                  else [-1]):
                            r, exc = outcome(lambda: cls.from_bytes(d) if v < 0
                                             else cls.from_bytes(d, witver=v))
                            out.ev(dict(k='raw', net=net, kind=kind, conf=cf == 'conf',
                                        data=d.hex(), ver=v, active=active,
                                        res=exc or show(r)))


KEYCLS = [('elements', 'xpub', W.CElementsExtPubKey), ('elements', 'xprv', W.CElementsExtKey),
          ('elements/liquidv1', 'xpub', W.CElementsLiquidV1ExtPubKey),
          ('elements/liquidv1', 'xprv', W.CElementsLiquidV1ExtKey),
          ('elements', 'wif', W.CElementsKey),
          ('elements/liquidv1', 'wif', W.CElementsLiquidV1Key),
          ('any', 'xpub', BW.CCoinExtPubKey), ('any', 'xprv', BW.CCoinExtKey),
          ('any', 'wif', BW.CCoinKey)]


def key_read(cls, s):
    r, exc = outcome(cls, s)
    if exc:
        return exc, ''
    n = type(r).__name__
    for end, w in (('ExtPubKey', 'xpub'), ('ExtKey', 'xprv'), ('Key', 'wif'), ('', '?')):
        if n.endswith(end):
            return n[1:len(n) - len(end)] + w + ':' + r.to_bytes().hex(), str(r)


def key_events(out):
    def ev(s, net, what, data):
        for active in ACTIVES:
            select_chain_params(active)
            res = []
            for n, w, c in KEYCLS:
                # (under bitcoin the generic classes are Bitcoin's own)
                if n == 'any' and active == 'bitcoin':
                    continue
                o, t = key_read(c, s)
                res.append(dict(net=n, what=w, out=o, text=t))
            out.ev(dict(k='key', s=codes(s), net=net, what=what, data=data,
                        active=active, res=res))
            # no address class may take a key string
            str_event(out, s, active)
    for rep in range(12 if THOROUGH else 3):
        for net, c in (('elements', W.CElementsExtKey), ('elements/liquidv1', W.CElementsLiquidV1ExtKey)):
            select_chain_params(G.pick(*ACTIVES))
            k = c.from_seed(G.b(32))
            for d in range(G.pick(0, 1, 3)):
                k = k.derive(G.pick(0, 1, 0x80000000, 0x7fffffff, 0xffffffff))
            ev(str(k), net, 'xprv', k.to_bytes().hex())
            # (neuter(), bitcointx code, takes the class of the active chain)
            select_chain_params(net)
            p = k.neuter()
            ev(str(p), net, 'xpub', p.to_bytes().hex())
            ev(str(p)[:-1], '', '', '')
            s = str(p)
            i = G.r.randrange(4, len(s))
            ev(s[:i] + ('2' if s[i] != '2' else '3') + s[i + 1:], '', '', '')
            c = [c for m, w, c in KEYCLS if (m, w) == (net, 'wif')][0]
            for comp in (True, False):
                k = c.from_secret_bytes(G.b(32), comp)
                ev(str(k), net, 'wif', k.to_bytes().hex())
                ev(b58(G.pick(b'\xee', b'\xf0', b'\x7f', b'\x81', b'\xcc', b'\xb0')
                       + k.to_bytes()), '', '', '')
            ev(b58(G.pick(b'\x04\x35\x87\xce', b'\x04\x88\xb2\x1f', b'\x04\x35\x87', b'\x04'))
               , '', '', '')


# -------------------------------------------------------------------- replay
def replay(src, dst, only_conf):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        bad = []
        if c['k'] == 'dec':
            s = ''.join(map(chr, c['s']))
            r, k = dec_res(c['hrp'], s)
            if r != c['want'] or k != c['want']:
                bad.append('decode')
            c = dict(c, s=s, got=[r, k])
            if c['form'] == 'plain':
                v, p = c['want'].split(':')
                if LA.encode(c['hrp'], int(v), H(p)) != s:
                    bad.append('encode')
        else:
            select_chain_params(c['active'])
            a = None
            for d in c['cls']:
                if d['net'] == 'any' and c['active'] == 'bitcoin' and only_conf:
                    continue
                if only_conf and d['out'] != 'yes':
                    continue
                g = read(class_of(d['net'], d['kind'], d['enc'], d['conf']), c['s'])
                if d['out'] == 'no' and g[0] != '!':
                    bad.append('foreign-string-accepted')
                elif d['out'] == 'yes' and g != c['show']:
                    bad.append('own-string-not-read-back')
                elif d['out'] == 'may' and g[0] != '!' and g != c['show']:
                    bad.append('own-string-not-read-back')
            kind = c['kind']
            a = class_of(c['net'], kind, 'any', 'conf' if c['conf'] else 'plain').from_bytes(H(c['data']))
            if str(a) != c['s']:
                bad.append('address-text')
            if bytes(a.to_scriptPubKey()).hex() != c['spk']:
                bad.append('output-script')
            if c['conf']:
                u = a.to_unconfidential()
                if show(u) != c['plain']:
                    bad.append('unconfidential-address')
                for cls in conf_classes(c['net'], kind, c['active']):
                    b, exc = outcome(cls.from_unconfidential, u, a.blinding_pubkey)
                    if exc or show(b) != c['show'] or str(b) != c['s']:
                        bad.append('confidential-address')
            c = dict(c)
            c.pop('cls')
        out.ev(c)
        for b in set(bad):
            res.write(json.dumps(dict(c, clause='replay-' + b)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    setup('elements')
    if sys.argv[1].startswith('replay'):
        replay(sys.argv[2], sys.argv[3], sys.argv[1] == 'replayconf')
        return
    out = Out(sys.argv[2])
    {'blech': blech_events, 'conf': conf_events, 'str': str_events}[sys.argv[1]](out)
    out.close()


main()
