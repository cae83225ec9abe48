"""Records blinding and unblinding of random transactions.

d_blind.py MODE OUT     MODE: out | refuse | iss | unblind | result
"""
import copy
import hashlib
import pickle
import random
import struct
import sys

from elib import *  # noqa
import zkplib as Z
from bitcointx.core.key import CKey, CPubKey
from bitcointx.wallet import CCoinKey  # noqa: F401
from elementstx.core import (
    CAsset, BlindingInputDescriptor, BlindingSuccess, BlindingFailure,
    UnblindingSuccess, UnblindingFailure, blind_transaction,
    unblind_confidential_pair, generate_asset_entropy, calculate_asset,
    calculate_reissuance_token,
)
from elementstx.wallet import CElementsKey, CElementsLiquidV1Key

NUL = '00' * 32
NHEX = '%064x' % Z.N
MUTROUTES = ('mut', 'gmut', 'append', 'im2mut')


def amt8(v):
    return struct.pack('>Q', v % 2 ** 64).hex()


class Blinder(Gen):
    """Random requests.  A request is the abstract one judged by the
    specification plus `objs`: replacements of single arguments."""

    params = 0.25      # how often proof parameters are given

    def sec(self):
        return '%064x' % self.r.randrange(1, Z.N)

    def pub(self, sk, comp=True):
        return bytes(CKey(H(sk), compressed=comp).pub).hex()

    def amount(self):
        return self.pick(1, 2, 5, 1000, 2 ** 31, 2 ** 32 + 1, 10 ** 8,
                         21 * 10 ** 14, self.r.randrange(1, 10 ** 12))

    def factor(self):
        return self.pick('%064x' % 1, '%064x' % (Z.N - 1), self.sec(),
                         self.sec(), self.sec(), self.sec())

    def spk(self):
        s = self.pick('51', '0014' + self.h(20), '0020' + self.h(32),
                      '76a914' + self.h(20) + '88ac', self.h(self.pick(
                          1, 2, 75, 76, 260)), '6a', '6a04' + self.h(4), '00')
        return s

    def unspendable(self, s):
        return s == '' or s.startswith('6a') or len(s) > 20000

    def own_iss(self, kind):
        """kind: new | re"""
        a, t = self.pick(('e', 'n'), ('e', 'e'), ('e', 'e'), ('n', 'e'))
        if kind == 're':
            a, t = 'e', 'n'
        return {'nonce': NUL if kind == 'new' else self.h(32),
                'entropy': self.pick(NUL, self.h(32), self.h(32)),
                'amt': '01' + amt8(self.pick(0, self.amount(), self.amount()))
                if a == 'e' else '',
                'keys': '01' + amt8(self.pick(0, self.amount(), self.amount()))
                if t == 'e' else ''}

    def ids(self, i, conf):
        """asset and token ids made by input i (to pick output assets)"""
        x = i['iss']
        if x['nonce'] != NUL:
            return [calculate_asset(H(x['entropy'])).data.hex()], None
        e = generate_asset_entropy(CElementsOutPoint(H(i['hash']), u32(i['n'])),
                                   H(x['entropy']))
        return ([calculate_asset(e).data.hex()],
                calculate_reissuance_token(e, conf).data.hex())

    def request(self, issuance=0.25, nin=None, nout=None, foreign=0.3):
        nin = nin or self.pick(1, 1, 2, 2, 3, 4)
        nout = self.pick(0, 1, 1, 2, 2, 3, 4) if nout is None else nout
        pool = [self.h(32) for _ in range(3)]
        vin, descs, aux = [], [], []
        use_aux = self.chance(foreign)
        for _ in range(nin):
            i = self.vin(issuance=False, coinbase=False)
            if self.chance(issuance):
                i['iss'] = self.own_iss(self.pick('new', 'new', 're'))
                if i['n'] == 'ffffff3f':
                    i['n'] = 'feffff3f'
            vin.append(i)
            k = self.pick('blinded', 'blinded', 'explicit', 'half')
            d = {'amt': amt8(self.amount()), 'neg': False, 'bf': NUL,
                 'abf': NUL, 'asset': self.pick(*pool)}
            if k == 'blinded':
                d['bf'], d['abf'] = self.factor(), self.factor()
            elif k == 'half':
                d[self.pick('bf', 'abf')] = self.factor()
            elif self.chance(0.2):
                d['neg'], d['amt'] = True, amt8(-self.pick(1, 7))
            a = Z.gen_of(H(d['asset']), H(d['abf'])).hex()
            if use_aux and self.chance(0.5):
                d.update(asset=NUL, amt=amt8(0), bf=NUL, abf=NUL, neg=False)
            elif use_aux and self.chance(0.3):
                a = self.h(33)
            descs.append(d)
            aux.append(a)
        if use_aux:
            for _ in range(self.pick(0, 0, 1, 2, 4)):
                # inputs of other transactions, maybe twice, maybe explicit
                aux.append(self.pick(
                    Z.gen_of(H(self.h(32)), H(self.sec())).hex(),
                    Z.gen_of(H(self.pick(*pool))).hex(), aux[-1]))
        else:
            aux = []
        iak, itk = [], []
        for j, i in enumerate(vin):
            iak.append(self.sec() if i['iss']['amt'] and self.chance(0.6) else '')
            itk.append(self.sec() if i['iss']['keys'] and self.chance(0.6) else '')
        assets = [d['asset'] for d in descs if d['asset'] != NUL] * 3
        for j, i in enumerate(vin):
            if i['iss']['amt'] or i['iss']['keys']:
                a, t = self.ids(i, bool(itk[j]))
                assets += a if i['iss']['amt'] else []
                assets += [t] if i['iss']['keys'] else []
        trim = lambda ks: ks if self.chance(0.5) else self.trim(ks)  # noqa
        iak, itk = trim(iak), trim(itk)
        vout, outwit, opks, sks = [], [], [], []
        for _ in range(nout):
            k = self.pick('blind', 'blind', 'blind', 'plain', 'fee', 'done')
            a = self.pick(*assets) if assets and self.chance(0.93) else self.h(32)
            s = '' if k == 'fee' else self.spk()
            v = self.amount()
            if self.unspendable(s) and self.chance(0.3):
                v = 0
            o = {'asset': '01' + a, 'value': '01' + amt8(v),
                 'nonce': self.pick('', '', '01' + self.h(32), '02' + self.h(32)),
                 'script': s}
            w = {'sp': '', 'rp': ''}
            if k == 'done':
                o = {'asset': Z.gen_of(H(a), H(self.sec())).hex(),
                     'value': self.pick('08', '09') + self.h(32),
                     'nonce': self.pub(self.sec()), 'script': s}
                w = self.outwit()
            vout.append(o)
            outwit.append(w)
            if k == 'blind':
                sk = self.sec()
                opks.append(self.pub(sk, self.chance(0.85)))
                sks.append(sk)
            else:
                opks.append('')
                sks.append('')
        if self.chance(0.5):
            opks = self.trim(opks)
        inwit = [self.inwit() for _ in vin]
        for w in inwit:
            w['ar'] = w['kr'] = ''
        t = {'ver': self.ver(), 'lock': self.u32(), 'vin': vin, 'vout': vout,
             'inwit': inwit, 'outwit': outwit}
        if self.chance(0.4):
            t['inwit'] = []
        if self.chance(0.5) and not any(w['sp'] or w['rp'] for w in outwit):
            t['outwit'] = []
        # which of the parameters are given
        custom = self.pick('eb', 'e', 'b') if self.chance(self.params) else ''
        return {'tx': t, 'mut': True, 'typed': True, 'descs': descs,
                'opks': opks, 'iak': iak, 'itk': itk, 'aux': aux,
                'strict': self.chance(0.7),
                'exp': self.pick(-1, 0, 1, 5, 18) if 'e' in custom else 0,
                'bits': self.pick(0, 1, 32, 36, 64) if 'b' in custom else 52,
                }, sks, custom

    def trim(self, ks):
        ks = list(ks)
        while ks and not ks[-1]:
            ks.pop()
        return ks


def mk_desc(d):
    v = struct.unpack('>Q', H(d['amt']))[0]
    return BlindingInputDescriptor(
        asset=CAsset(H(d['asset'])), amount=v - 2 ** 64 if d['neg'] else v,
        blinding_factor=Uint256(H(d['bf'])),
        asset_blinding_factor=Uint256(H(d['abf'])))


def mk_key(g, s):
    if not s:
        return None
    return g.pick(CKey, CElementsKey, CElementsLiquidV1Key).from_secret_bytes(H(s)) \
        if g.chance(0.5) else CKey(H(s))


def mk_kwargs(g, q, custom):
    kw = dict(input_descriptors=[mk_desc(d) for d in q['descs']])
    if q['opks'] or g.chance(0.5):
        kw['output_pubkeys'] = [CPubKey(H(p)) for p in q['opks']]
    if q['iak'] or g.chance(0.5):
        kw['blind_issuance_asset_keys'] = [mk_key(g, s) for s in q['iak']]
    if q['itk'] or g.chance(0.5):
        kw['blind_issuance_token_keys'] = [mk_key(g, s) for s in q['itk']]
    if q['aux'] or g.chance(0.3):
        bt = g.pick(bytes, bytes, bytearray)
        kw['auxiliary_generators'] = [bt(H(a)) for a in q['aux']]
    if not q['strict'] or g.chance(0.3):
        kw['is_blind_success_strict'] = q['strict']
    if 'e' in custom:
        kw['custom_ct_exponent'] = q['exp']
    if 'b' in custom:
        kw['custom_ct_bits'] = q['bits']
    if g.chance(0.3):
        rr = random.Random(g.r.random())
        kw['_rand_func'] = lambda n: rr.getrandbits(8 * n).to_bytes(n, 'big')
    for k in kw:
        if isinstance(kw[k], list) and g.chance(0.3):
            kw[k] = tuple(kw[k])
    return kw


NORES = {'kind': '', 'ok': '', 'err': '', 'bool': '', 'typed': '', 'n': 0,
         'bfs': [], 'abfs': []}


def see_res(r, exc, nout):
    if exc:
        return dict(NORES, kind=exc)
    e = dict(NORES, ok=observe(lambda: r.ok), bool=observe(lambda: bool(r)))
    err = observe(lambda: r.error)
    e['err'] = '' if err == '' else (err[:60] if isinstance(err, str) else '?')
    if isinstance(r, BlindingSuccess):
        e['kind'] = 'ok'
        good = (type(r.num_successfully_blinded) is int
                and len(r.blinding_factors) == nout
                and len(r.asset_blinding_factors) == nout
                and all(isinstance(x, Uint256) for x in r.blinding_factors)
                and all(isinstance(x, Uint256)
                        for x in r.asset_blinding_factors))
        e['typed'] = 'T' if good else 'F'
        e['n'] = int(r.num_successfully_blinded)
        e['bfs'] = [x.data.hex() for x in r.blinding_factors]
        e['abfs'] = [x.data.hex() for x in r.asset_blinding_factors]
    elif isinstance(r, BlindingFailure):
        e['kind'] = 'fail'
    else:
        e['kind'] = '?'
    return e


def do_blind(g, q, sks, custom, change=None, tx=None):
    """Call the code; returns (event, transaction, result)."""
    if tx is None:
        tx = mk_tx(q['tx'], g.pick(*MUTROUTES) if q['mut'] else
                   g.pick('imm', 'gimm', 'mut2im'))
    q = dict(q, tx=ab_tx(tx))
    kw = mk_kwargs(g, q, custom)
    if change:
        change(kw)
    ser0 = tx.serialize().hex()
    if q['mut'] and g.chance(0.6):
        r, exc = outcome(tx.blind, **kw)
    else:
        r, exc = outcome(blind_transaction, tx, **kw)
    res = see_res(r, exc, len(tx.vout))
    ser = observe(tx.serialize)
    e = {'k': 'blind', 'req': q, 'res': res, 'post': see_tx(tx), 'sks': sks,
         'ser0': ser0, 'ser': ser, 'back': 'F'}
    if res['kind'] == 'ok' and not ser.startswith('!'):
        b, x = outcome(CElementsTransaction.deserialize, H(ser))
        if not x and norm(ab_tx(b)) == norm(e['post']) \
                and b.serialize().hex() == ser:
            e['back'] = 'T'
    return e, tx, r


# ----------------------------------------------------------- bad requests
def put(ls, i, v, fill):
    ls = list(ls)
    while len(ls) <= i:
        ls.append(fill)
    ls[i] = v
    return ls


def set_in(kw, name, i, v, fill=None):
    kw[name] = put(kw.get(name, ()), i, v, fill)


def spoilers(g, q, sks):
    """Name and change of the request (or of the actual arguments)."""
    t = q['tx']
    ni, no = len(t['vin']), len(t['vout'])
    i = g.r.randrange(ni)
    o = g.r.randrange(no) if no else None
    sk = g.sec()
    pk = g.pub(sk)

    def offcurve():
        while True:
            p = '02' + g.h(32)
            if not CPubKey(H(p)).is_fullyvalid():
                return p

    def iss(kind, **kw):
        t['vin'][i]['iss'] = dict(g.own_iss(kind), **kw)
        if t['vin'][i]['n'] == 'ffffff3f':
            t['vin'][i]['n'] = 'feffff3f'

    def outkey(**kw):
        t['vout'][o] = dict({'asset': '01' + q['descs'][0]['asset'],
                             'value': '01' + amt8(g.amount()), 'nonce': '',
                             'script': '51'}, **kw)
        if t['outwit']:
            t['outwit'][o] = {'sp': '', 'rp': ''}
        q['opks'] = put(q['opks'], o, pk, '')
        sks[o:o + 1] = [sk]

    def wit(name):
        if not t['inwit']:
            t['inwit'] = [{'ar': '', 'kr': '', 'sw': [], 'pw': []}
                          for _ in t['vin']]
        t['inwit'][i][name] = g.pick('00', g.h(40))

    def outwit(w):
        outkey()
        if not t['outwit']:
            t['outwit'] = [{'sp': '', 'rp': ''} for _ in t['vout']]
        t['outwit'][o] = w

    def aux():
        if len(q['aux']) < ni:
            q['aux'] = [Z.gen_of(H(d['asset'])).hex() for d in q['descs']]

    def unknown():
        q['descs'][i] = {'asset': NUL, 'amt': amt8(0), 'neg': False,
                         'bf': NUL, 'abf': NUL}

    def extra_opk():
        q['opks'] = put(q['opks'], no, g.pick(pk, ''), '')
        sks.append(sk)

    def extra_iak():
        q['iak'] = put(q['iak'], ni, g.pick(sk, ''), '')

    def extra_itk():
        q['itk'] = put(q['itk'], ni, g.pick(sk, ''), '')

    def desc_less():
        q['descs'].pop()

    def desc_more():
        q['descs'].append(dict(q['descs'][0]))

    def aux_few():
        aux()
        q['aux'] = q['aux'][:ni - 1]

    def aux_len():
        aux()
        if not q['aux']:
            return
        j = g.r.randrange(len(q['aux']))
        q['aux'][j] = g.pick(q['aux'][j][:-2], q['aux'][j] + '00', '')

    def aux_bad():
        aux()
        unknown()
        q['aux'][i] = g.pick('0a' + 'ff' * 32, '01' + g.h(32), '00' * 33,
                             '0c' + '11' * 32, '08' + '11' * 32)

    def aux_bad_unused():
        # a generator that is not needed is not looked at
        aux()
        if q['descs'][i]['asset'] == NUL:
            q['descs'][i]['asset'] = g.h(32)
        q['aux'][i] = g.h(33)

    def aux_extra_bad():
        aux()
        q['aux'].append(g.pick('0b' + '80' * 32, '01' + g.h(32), '02' + g.h(32)))

    def no_aux():
        unknown()
        q['aux'] = []

    def negative():
        q['descs'][i].update(neg=True, amt=amt8(-1))
        if q['descs'][i]['asset'] == NUL:
            q['descs'][i]['asset'] = g.h(32)
        q['descs'][i][g.pick('bf', 'abf')] = g.sec()

    def factor_big():
        q['descs'][i][g.pick('bf', 'abf')] = g.pick(
            NHEX, 'ff' * 32, '%064x' % (Z.N + 1))

    def key_bad():
        outkey()
        q['opks'][o] = g.pick(offcurve(), pk[:-2], pk + '00', '00' * 33,
                              '05' + pk[2:], '04' + pk[2:] + pk[2:], '02')

    def key_committed_value():
        outkey(value=g.pick('08', '09') + g.h(32))

    def key_committed_asset():
        outkey(asset=g.pick('0a', '0b') + g.h(32))

    def key_null_value():
        outkey(value='')

    def key_null_asset():
        outkey(asset='')

    def key_fee():
        outkey(script='')

    def key_zero():
        outkey(value='01' + amt8(0))

    def key_witness():
        outwit(g.pick({'sp': '00', 'rp': ''}, {'sp': '', 'rp': '00'},
                      {'sp': g.h(67), 'rp': g.h(80)}))

    def iak_noiss():
        t['vin'][i]['iss'] = dict(Gen.NULLISS)
        q['iak'] = put(q['iak'], i, sk, '')

    def itk_noiss():
        t['vin'][i]['iss'] = dict(Gen.NULLISS)
        q['itk'] = put(q['itk'], i, sk, '')

    def iak_null():
        iss('new', amt='', keys='01' + amt8(3))
        q['iak'] = put(q['iak'], i, sk, '')

    def itk_null():
        iss(g.pick('new', 're'), amt='01' + amt8(3), keys='')
        q['itk'] = put(q['itk'], i, sk, '')

    def iak_proof():
        iss(g.pick('new', 're'), amt='01' + amt8(5))
        wit('ar')
        q['iak'] = put(q['iak'], i, sk, '')

    def itk_proof():
        iss('new', keys='01' + amt8(5))
        wit('kr')
        q['itk'] = put(q['itk'], i, sk, '')

    def iss_done():
        iss('new', **{g.pick('amt', 'keys'): '08' + g.h(32)})
        if g.chance(0.5):
            q['iak'] = put(q['iak'], i, '', '')
            q['itk'] = put(q['itk'], i, '', '')

    def re_keys():
        iss('re', keys='01' + amt8(5), amt=g.pick('', '01' + amt8(4)))
        q['itk'] = put(q['itk'], i, g.pick(sk, ''), '')
        q['iak'] = put(q['iak'], i, '', '')

    def immutable():
        q['mut'] = False

    def typed(f):
        def change():
            q['typed'] = False
            return f
        return change

    def desc_field(kw):
        d = list(kw['input_descriptors'])
        f, v = g.pick(('blinding_factor', bytes(32)),
                      ('blinding_factor', None),
                      ('asset_blinding_factor', bytes(32)),
                      ('asset_blinding_factor', 0),
                      ('asset', bytes(32)), ('asset', None),
                      ('amount', None), ('amount', 1.0), ('amount', '1'))
        if not d:
            d = [mk_desc({'asset': g.h(32), 'amt': amt8(1), 'neg': False,
                          'bf': NUL, 'abf': NUL})]
        j = g.r.randrange(len(d))
        d[j] = d[j]._replace(**{f: v})
        kw['input_descriptors'] = d

    def opk_type(kw):
        set_in(kw, 'output_pubkeys', o, g.pick(
            None, b'', H(pk), pk, CKey(H(sk)), bytearray(H(pk))), CPubKey())

    def key_type(name):
        def change(kw):
            set_in(kw, name, i, g.pick(
                b'', 0, '', False, [], H(sk), sk, CPubKey(H(pk)), 1,
                b'\x01', True))
        return change

    def aux_type(kw):
        a = list(kw.get('auxiliary_generators', ())) or \
            [Z.gen_of(bytes(32))] * ni
        a[g.r.randrange(len(a))] = g.pick(None, 33, 'x' * 33, [0] * 33,
                                          CConfidentialAsset())
        kw['auxiliary_generators'] = a

    r = [extra_opk, extra_iak, extra_itk, desc_less, desc_more, aux_few,
         aux_len, aux_bad, aux_bad_unused, aux_extra_bad, no_aux, negative,
         factor_big, iak_noiss, itk_noiss, iak_null, itk_null, iak_proof,
         itk_proof, iss_done, re_keys, immutable, typed(desc_field),
         typed(key_type('blind_issuance_asset_keys')),
         typed(key_type('blind_issuance_token_keys')), typed(aux_type)]
    if no:
        r += [key_bad, key_bad, key_committed_value, key_committed_asset,
              key_null_value, key_null_asset, key_fee, key_zero, key_witness,
              typed(opk_type)]
    return r


def refuse(out, g, n):
    k = 0
    while n:
        q, sks, custom = g.request(issuance=0.3)
        if g.chance(0.7) and not any(q['opks']):
            continue
        ss = spoilers(g, q, sks)
        change = ss[k % len(ss)]()
        k += 1
        # sometimes a second inconsistency (or the first one undone by it)
        if len(q['descs']) >= len(q['tx']['vin']) and g.chance(0.15):
            change = change or g.r.choice(spoilers(g, q, sks))()
        e, _, _ = do_blind(g, q, sks, custom, change)
        out.ev(e)
        n -= 1


def valid(out, g, n, issuance=0.25, after=None, **kw):
    while n:
        q, sks, custom = g.request(issuance=issuance, **kw)
        asked = any(q['opks']) or any(q['iak']) or any(q['itk'])
        if not asked and g.chance(0.8):
            continue
        e, tx, r = do_blind(g, q, sks, custom)
        n -= 1
        if after is None:
            out.ev(e, asked)
        else:
            after(e, tx, r)


def zero_last(out, g):
    """The determined factor comes out as zero."""
    for _ in range(4):
        q, sks, custom = g.request(issuance=0, nin=1, nout=1, foreign=0)
        abf, v = g.sec(), g.amount()
        a = g.h(32)
        q['descs'] = [{'asset': a, 'amt': amt8(v), 'neg': False, 'abf': abf,
                       'bf': '%064x' % (-int(abf, 16) * v % Z.N)}]
        sk = g.sec()
        q['tx']['vout'] = [{'asset': '01' + a, 'value': '01' + amt8(0),
                            'nonce': '', 'script': '6a'}]
        q['tx']['outwit'] = []
        q['opks'] = [g.pub(sk)]
        e, _, _ = do_blind(g, q, [sk], custom)
        out.ev(e)


# -------------------------------------------------------------- unblinding
NOUNB = {'kind': '', 'ok': '', 'err': '', 'bool': '', 'typed': '', 'amt': '',
         'bf': '', 'asset': '', 'abf': '', 'desc': ''}


def see_unb(r, exc):
    if exc:
        return dict(NOUNB, kind=exc)
    e = dict(NOUNB, ok=observe(lambda: r.ok), bool=observe(lambda: bool(r)))
    err = observe(lambda: r.error)
    e['err'] = '' if err == '' else (err[:60] if isinstance(err, str) else '?')
    if isinstance(r, UnblindingSuccess):
        e['kind'] = 'ok'
        good = (type(r.amount) is int and isinstance(r.asset, CAsset)
                and isinstance(r.blinding_factor, Uint256)
                and isinstance(r.asset_blinding_factor, Uint256))
        e['typed'] = 'T' if good else 'F'
        e.update(amt=amt8(r.amount), bf=r.blinding_factor.data.hex(),
                 asset=r.asset.data.hex(),
                 abf=r.asset_blinding_factor.data.hex())
        d, x = outcome(r.get_descriptor)
        if not x and isinstance(d, BlindingInputDescriptor) and (
                d.amount, d.asset, d.blinding_factor, d.asset_blinding_factor
                ) == (r.amount, r.asset, r.blinding_factor,
                      r.asset_blinding_factor):
            e['desc'] = 'T'
    elif isinstance(r, UnblindingFailure):
        e['kind'] = 'fail'
    else:
        e['kind'] = '?'
    return e


def unblind(g, sk, o, rp, mut=None):
    bt = g.pick(bytes, bytes, bytearray)
    key = mk_key(g, sk)
    how = g.pick('fn', 'out', 'mutout')
    if how == 'fn':
        r, x = outcome(
            unblind_confidential_pair, blinding_key=key,
            confValue=conf(CConfidentialValue, o['value']),
            confAsset=conf(CConfidentialAsset, o['asset']),
            confNonce=conf(CConfidentialNonce, o['nonce']),
            committedScript=CElementsScript(H(o['script'])),
            rangeproof=bt(H(rp)))
    else:
        t = mk_out(o, how == 'mutout')
        r, x = outcome(t.unblind_confidential_pair, key, bt(H(rp)))
    return {'k': 'unblind', 'how': how, 'sk': sk, 'out': o, 'rp': rp,
            'r': see_unb(r, x)}, r


def flip(g, s, at=None):
    b = bytearray(H(s))
    b[g.r.randrange(len(b)) if at is None else at] ^= 1 << g.r.randrange(8)
    return bytes(b).hex()


def twisted(g, sk, o, rp, other):
    """The right call and ways to get it wrong."""
    yield sk, o, rp
    yield g.sec(), o, rp
    yield '%064x' % (Z.N - int(sk, 16)), o, rp      # the negated key
    yield sk, dict(o, script=o['script'] + '51'), rp
    yield sk, dict(o, script=''), rp
    yield sk, dict(o, script=flip(g, o['script']) if o['script'] else '00'), rp
    for _ in range(4):
        yield sk, o, flip(g, rp)
    yield sk, o, rp[:-2]
    yield sk, o, rp + '00'
    yield sk, o, ''
    yield sk, o, rp[:g.r.randrange(2, len(rp) - 2) // 2 * 2]
    yield sk, dict(o, value=flip(g, o['value'])), rp
    yield sk, dict(o, value='01' + amt8(g.amount())), rp
    yield sk, dict(o, value=''), rp
    yield sk, dict(o, value=g.pick('08', '09') + 'ff' + g.h(31)), rp
    yield sk, dict(o, asset=flip(g, o['asset'])), rp
    yield sk, dict(o, asset='01' + g.h(32)), rp
    yield sk, dict(o, asset=''), rp
    yield sk, dict(o, asset='0a' + 'ff' + g.h(31)), rp
    yield sk, dict(o, nonce=g.pub(g.sec())), rp
    if o['nonce']:
        yield sk, dict(o, nonce='02' + g.h(32)), rp
        yield sk, dict(o, nonce='%02x' % (int(o['nonce'][:2], 16) ^ 1)
                       + o['nonce'][2:]), rp    # same x: same secret is fine
        yield sk, dict(o, nonce='01' + o['nonce'][2:]), rp
        yield sk, dict(o, nonce=''), rp
    else:
        # nonces that are no public keys do not stand for an absent one
        yield sk, dict(o, nonce='01' + g.h(32)), rp
        yield sk, dict(o, nonce='01' + g.h(32), script=''), rp
        yield sk, dict(o, nonce='0%d' % g.pick(2, 3) + 'ff' * 32, script=''), rp
    if other:
        oo, orp = other
        yield sk, o, orp
        yield sk, dict(o, value=oo['value']), rp
        yield sk, dict(o, asset=oo['asset']), rp
        yield sk, dict(o, value=oo['value'], asset=oo['asset']), rp
        yield sk, dict(o, nonce=oo['nonce']), rp
        yield sk, dict(oo, script=o['script']), rp


def crafted(g):
    """Outputs no honest blinder makes: (sk, out, rp)."""
    while True:
        sk, esk = g.sec(), g.sec()
        nonce = hashlib.sha256(CKey(H(sk)).ECDH(CKey(H(esk)).pub)).digest()
        asset, abf, bf = g.h(32), g.sec(), g.sec()
        v = g.pick(0, 1, 21 * 10 ** 14, 21 * 10 ** 14 + 1, 2 ** 63 - 1,
                   2 ** 63, 2 ** 64 - 1, g.amount())
        expl = g.chance(0.3)
        if expl:
            abf = g.pick(NUL, NUL, abf)
        gen = Z.gen_of(H(asset), bytes(32) if expl else H(abf))
        casset = '01' + asset if expl else gen.hex()
        msg = H(asset) + H(abf)
        k = g.pick('good', 'good', 'short', 'long', 'empty', 'asset', 'abf',
                   'bigabf', 'bf', 'nonce')
        if k == 'short':
            msg = msg[:-g.pick(1, 32)]
        elif k == 'long':
            msg += bytes(g.pick(1, 64))
        elif k == 'empty':
            msg = b''
        elif k == 'asset':
            msg = H(g.h(32)) + msg[32:]
        elif k == 'abf':
            msg = msg[:32] + H(g.sec())
        elif k == 'bigabf':
            msg = msg[:32] + H(g.pick('ff' * 32, NHEX))
        com = Z.com_of(gen, v, H(bf))
        script = g.spk()
        if k == 'bf':
            bf = g.sec()
        if k == 'nonce':
            # no nonce: the key is the nonce, the script is not committed
            rp = Z.rp_of(v, H(bf), msg, H(sk), com, gen, g.pick(b'', H(script)))
            yield sk, {'asset': casset, 'value': com.hex(),
                       'nonce': g.pick('', '', '', '01' + g.h(32),
                                       '02' + 'ff' * 32),
                       'script': script}, rp.hex()
            continue
        rp = Z.rp_of(v, H(bf), msg, nonce, com, gen, H(script))
        yield sk, {'asset': casset, 'value': com.hex(),
                   'nonce': g.pub(esk), 'script': script}, rp.hex()


def unblinds(out, g, n):
    done = [0]
    last = [None]

    def go(sk, o, rp):
        for s, oo, p in twisted(g, sk, o, rp, last[0]):
            if int(s, 16) == 0:
                continue
            e, _ = unblind(g, s, oo, p)
            out.ev(e)
            done[0] += 1
        if o['nonce']:
            last[0] = (o, rp)

    def after(e, tx, r):
        if e['res']['kind'] != 'ok':
            return
        p = e['post']
        q = e['req']
        for i, sk in enumerate(e['sks']):
            if sk and len(p['outwit']) > i and p['outwit'][i]['rp'] \
                    and p['vout'][i]['value'][:2] in ('08', '09'):
                go(sk, p['vout'][i], p['outwit'][i]['rp'])
        for keys, rf, cf in (('iak', 'ar', 'amt'), ('itk', 'kr', 'keys')):
            for i, sk in enumerate(q[keys]):
                if sk and len(p['inwit']) > i and p['inwit'][i][rf]:
                    a, t = g.ids(q['tx']['vin'][i],
                                 len(q['itk']) > i and bool(q['itk'][i]))
                    a = a[0] if keys == 'iak' else t
                    go(sk, {'asset': '01' + a, 'value': p['vin'][i]['iss'][cf],
                            'nonce': '', 'script': g.pick('', '51')},
                       p['inwit'][i][rf])

    while done[0] < n:
        valid(out, g, 5, issuance=0.2, after=after)
    c = crafted(g)
    for _ in range(n // 2):
        sk, o, rp = next(c)
        e, _ = unblind(g, sk, o, rp)
        out.ev(e)


# ------------------------------------------------- what range proofs show
NOINFO = {'ok': 'F', 'exp': 0, 'mant': 0, 'min': '', 'max': ''}


def info(g, p, how=None):
    """Look at a range proof through an output witness made in some way."""
    b = H(p)
    how = how or g.pick('imm', 'mut', 'set', 'read', 'tx', 'conv')
    sp = H(g.pick('', '00', g.h(40)))

    def wit():
        if how == 'imm':
            return CElementsTxOutWitness(sp, g.pick(bytes, bytearray)(b))
        if how == 'mut':
            return CElementsMutableTxOutWitness(surjectionproof=sp, rangeproof=b)
        if how == 'set':
            w = CElementsMutableTxOutWitness(sp, b'RP')
            w.rangeproof = b
            return w
        w = CElementsTxOutWitness(sp, b)
        if how == 'read':
            return CElementsTxOutWitness.deserialize(w.serialize())
        if how == 'conv':
            return w.to_mutable()
        t = CElementsMutableTransaction(
            [CElementsMutableTxIn(CElementsMutableOutPoint(b'\x01' * 32, 0))],
            [CElementsMutableTxOut(CConfidentialValue(5))],
            witness=CElementsMutableTxWitness(
                [CElementsMutableTxInWitness()], [w.to_mutable()]))
        return t.to_immutable().wit.vtxoutwit[0]

    r, x = outcome(lambda: wit().get_rangeproof_info())
    if x:
        r = dict(NOINFO, ok=x)
    elif r is None:
        r = NOINFO
    else:
        good = all(type(v) is int for v in (r.exp, r.mantissa, r.value_min,
                                            r.value_max))
        r = {'ok': 'T' if good else 'ill-typed', 'exp': int(r.exp),
             'mant': int(r.mantissa), 'min': amt8(int(r.value_min)),
             'max': amt8(int(r.value_max))}
    return {'k': 'info', 'how': how, 'p': p, 'r': r}


def infos(out, g, n):
    def after(e, tx, r):
        if e['res']['kind'] != 'ok':
            out.ev(e)
            return
        out.ev(e)
        p = pad(e['post'])
        for w in p['outwit']:
            if w['rp']:
                out.ev(info(g, w['rp']))
        for w in p['inwit']:
            for f in ('ar', 'kr'):
                if w[f]:
                    out.ev(info(g, w[f]))
    g.params = 0.8
    valid(out, g, n, issuance=0.3, after=after)
    for k in range(4 * n):
        v = g.pick(0, 1, 255, 2 ** 31, 2 ** 32, 2 ** 32 - 1, 2 ** 63 - 1, 2 ** 63,
                   2 ** 64 - 1, g.amount(), g.r.getrandbits(64))
        mn = g.pick(0, 0, 1, v, g.r.getrandbits(g.r.randrange(1, 65)))
        e, b = g.r.randrange(-1, 19), g.r.randrange(0, 65)
        if g.chance(0.1):
            e, b = g.r.randrange(-1, 255), g.r.randrange(0, 256)
        p = Z.rp_of(v, H(g.factor()), H(g.h(g.pick(0, 64, 64, 300))), g.b(32),
                    g.b(33), g.b(33), g.b(g.pick(0, 1, 25)), mn, e, b).hex()
        out.ev(info(g, p))
        if g.chance(0.6):
            p = g.pick(p[:-2], p + '00', '', p[:2 * g.r.randrange(len(p) // 2)],
                       '53' + p[2:], p[:2] + '00' + p[4:], flip(g, p),
                       g.h(g.pick(1, 64, 118, 200)), p + p,
                       p[:104] + '%04x' % g.r.randrange(400) + p[108:])
            out.ev(info(g, p))


def replayinfo(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    g = Blinder(SEED + 2)
    for line in open(src):
        c = json.loads(line)
        e = info(g, c['p'])
        r = e['r']
        bad = None
        if r['ok'] != ('T' if c['ok'] else 'F'):
            bad = 'information-about-proof'
        elif c['ok']:
            bad = next((f for f in ('exp', 'mant', 'min', 'max')
                        if r[f] != c[f]), None)
        out.ev(c)
        if bad:
            res.write(json.dumps(dict(e, case=c, clause='replay-' + bad)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


# ----------------------------------------------------- construction of results
MESSAGES = ('x', ' ', '\n', '\t ', '0', 'False', 'None', '\0', 'ok', '%s', '{}',
            '\u00e9\u4e2d', 'x' * 200, '-', 'success')


def made(out):
    def ev(what, good, fn, msg='', nout=0, copies=True):
        r, x = outcome(fn)
        out.ev({'k': 'made', 'what': what, 'good': good, 'res': x or 'made',
                'r': NORES if x else small(r, nout), 'msg': msg})
        if not x and good and copies:
            for how in (copy.copy, copy.deepcopy,
                        lambda o: pickle.loads(pickle.dumps(o))):
                c, x = outcome(how, r)
                if not x:
                    ev(what, good, lambda: c, msg, nout, False)

    def small(r, nout):
        f = isinstance(r, (BlindingSuccess, BlindingFailure))
        e = see_res(r, '', nout) if f else see_unb(r, '')
        return {k: e[k] for k in NORES if k in e} | {'n': 0, 'bfs': [], 'abfs': []}

    u = Uint256()
    for cls in (BlindingFailure, UnblindingFailure):
        for m in MESSAGES:
            ev('failure-with-message-refused', True, lambda: cls(m), m[:60])
        ev('failure-without-message-made', False, lambda: cls(''))
        for bad in (None, 0, b'x', [], b''):
            ev('failure-with-ill-typed-message-made', False, lambda: cls(bad))
    ev('success-refused', True, lambda: BlindingSuccess(0, [], []))
    ev('success-refused', True, lambda: BlindingSuccess(
        num_successfully_blinded=1, blinding_factors=[u],
        asset_blinding_factors=[u]), nout=1)
    ev('success-refused', True, lambda: BlindingSuccess(2, (u, u), (u, u)),
       nout=2)
    for a in ((None, [u], [u]), ('1', [u], [u]), (1, [bytes(32)], [u]),
              (1, [u], [None]), (1, [None], [u]), (1, [u], [bytes(32)]),
              (1.0, [u], [u])):
        ev('ill-typed-blinding-success-made', False,
           lambda: BlindingSuccess(*a))
    A = CAsset(bytes(32))
    ok = dict(asset=A, amount=1, blinding_factor=u, asset_blinding_factor=u)
    ev('success-refused', True, lambda: UnblindingSuccess(**ok))
    for f, v in (('asset', bytes(32)), ('asset', None), ('asset', u),
                 ('amount', None),
                 ('amount', 1.5), ('amount', -1), ('amount', 21 * 10 ** 14 + 1),
                 ('blinding_factor', bytes(32)), ('blinding_factor', None),
                 ('asset_blinding_factor', bytes(32)),
                 ('asset_blinding_factor', None)):
        ev('ill-typed-unblinding-success-made', False,
           lambda: UnblindingSuccess(**dict(ok, **{f: v})))


# ------------------------------------------------ requests of the models
def concrete(g, c):
    """An actual request of the shape the model printed (see BlindMC)."""
    vin, descs, aux, iak, itk = [], [], [], [], []
    for i in c['ins']:
        f = i['iss']['form']
        v = g.vin(issuance=False, coinbase=False)
        v['n'] = g.pick('00000000', '01000000', 'feffff3f')
        if f != 'none':
            v['iss'] = {
                'nonce': g.sec() if f == 'R' else NUL,
                'entropy': g.pick(NUL, g.h(32)),
                'amt': '01' + amt8(g.amount()) if f in ('A', 'AT', 'R') else '',
                'keys': '01' + amt8(g.amount()) if f in ('T', 'AT') else ''}
        vin.append(v)
        d = {'asset': g.h(32), 'amt': amt8(g.amount()), 'neg': False,
             'bf': NUL, 'abf': NUL}
        if i['k'] == 'bl':
            for n in g.pick(('bf', 'abf'), ('bf', 'abf'), ('bf',), ('abf',)):
                d[n] = g.sec()
        aux.append(Z.gen_of(H(d['asset']), H(d['abf'])).hex())
        if i['k'] == 'fo':
            d.update(asset=NUL, amt=amt8(0))
        descs.append(d)
        iak.append(g.sec() if i['iss']['ak'] else '')
        itk.append(g.sec() if i['iss']['tk'] else '')
    if all(i['k'] != 'fo' for i in c['ins']):
        aux = []
    real = [d['asset'] if i['k'] != 'fo' else g.h(32)
            for d, i in zip(descs, c['ins'])]
    ids = g.ids(vin[0], bool(itk[0])) if vin[0]['iss']['nonce'] else None
    table = {'in1': real[0], 'in2': real[-1], 'iss': ids and ids[0][0],
             'tok': ids and ids[1], 'other': g.h(32)}
    vout, opks, sks = [], [], []
    for o in c['outs']:
        k = o['k']
        a, v, s = table[o['a']], g.amount(), g.pick(
            '51', '0014' + g.h(20), '76a914' + g.h(20) + '88ac', g.h(253))
        if k == 'keyz':
            v, s = 0, g.pick('6a', '6a51', '6a04' + g.h(4))
        elif k == 'keyzs':
            v = 0
        elif k in ('fee', 'keyfee'):
            s = ''
        while g.unspendable(s) and k in ('key', 'keyzs'):
            s = g.h(253)
        vout.append({'asset': Z.gen_of(H(a), H(g.sec())).hex()
                     if k == 'keydone' else '01' + a,
                     'value': '01' + amt8(v), 'nonce': '', 'script': s})
        sk = g.sec() if k.startswith('key') else ''
        sks.append(sk)
        opks.append(g.pub(sk) if sk else '')
    if g.chance(0.5):
        iak, itk, opks = g.trim(iak), g.trim(itk), g.trim(opks)
    return {'tx': {'ver': '02000000', 'lock': '00000000', 'vin': vin,
                   'vout': vout, 'inwit': [], 'outwit': []},
            'mut': True, 'typed': True, 'descs': descs, 'opks': opks,
            'iak': iak, 'itk': itk, 'aux': aux, 'strict': c['strict'],
            'exp': 0, 'bits': 52}, sks, ''


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    g = Blinder(SEED)
    for line in open(src):
        c = json.loads(line)
        bad = set()
        q, sks, custom = concrete(g, c)
        e, _, _ = do_blind(g, q, sks, custom)
        kind, pre, post = e['res']['kind'], pad(e['req']['tx']), pad(e['post'])
        if not c['granted']:
            if kind == 'ok':
                bad.add('inconsistent-request-accepted')
            if pre != post or e['ser'] != e['ser0']:
                bad.add('refused-request-changed-transaction')
        elif not c['ok']:
            if kind != 'fail':
                bad.add('incomplete-blinding-not-a-failure')
        elif kind != 'ok':
            bad.add('valid-request-refused')
        else:
            if e['res']['n'] != c['n']:
                bad.add('reported-count')
            touched, proved = set(), set()
            for i, (a, b) in enumerate(zip(pre['vin'], post['vin'])):
                for t, f, p in (('a', 'amt', 'ar'), ('t', 'keys', 'kr')):
                    if a['iss'][f] != b['iss'][f]:
                        touched.add('%s%d' % (t, i + 1))
                    if post['inwit'][i][p]:
                        proved.add('%s%d' % (t, i + 1))
            for i, (a, b) in enumerate(zip(pre['vout'], post['vout'])):
                if a != b:
                    touched.add('o%d' % (i + 1))
                if post['outwit'][i]['sp'] and post['outwit'][i]['rp']:
                    proved.add('o%d' % (i + 1))
            if touched != set(c['touched']):
                bad.add('other-things-blinded-than-asked')
            if proved != set(c['proved']):
                bad.add('proofs-missing')
            if e['back'] != 'T':
                bad.add('blinded-transaction-does-not-read-back')
        out.ev(c)
        for b in bad:
            res.write(json.dumps(dict(e, case=c, clause='replay-' + b)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def sources(g):
    """The four things to be unblinded in UnblindMC, made by blinding."""
    k = g.pick('51', '0014' + g.h(20), 'a914' + g.h(20) + '87')
    c = {'ins': [{'k': 'bl', 'iss': {'form': 'A', 'ak': True, 'tk': False}}],
         'outs': [{'a': 'in1', 'k': 'key'}, {'a': 'in1', 'k': 'key'},
                  {'a': 'in1', 'k': 'key'}], 'strict': True}
    q, sks, _ = concrete(g, c)
    o = q['tx']['vout']
    o[0]['script'], o[1]['script'], o[2]['script'] = k, k + '51', k
    sks[2] = sks[0]
    q['opks'] = [g.pub(s) for s in sks]
    e, _, _ = do_blind(g, q, sks, '')
    if e['res']['kind'] != 'ok':
        return e
    w = pad(e['post'])
    a = g.ids(q['tx']['vin'][0], False)[0][0]
    r = [None] * 4
    for i, n in enumerate((0, 1, 3)):
        r[n] = dict(w['vout'][i], key=sks[i], proof=w['outwit'][i]['rp'],
                    a=o[i]['asset'][2:], v=o[i]['value'][2:],
                    bf=e['res']['bfs'][i], abf=e['res']['abfs'][i])
    x = w['vin'][0]['iss']
    r[2] = dict(asset='01' + a, value=x['amt'], nonce='', script='', abf=NUL,
                key=q['iak'][0], proof=w['inwit'][0]['ar'], a=a, bf=None,
                v=q['tx']['vin'][0]['iss']['amt'][2:])
    return r


def replayun(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    g = Blinder(SEED + 1)
    s = None
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        if n % 100 == 0:
            s = sources(g)
            if isinstance(s, dict):
                res.write(json.dumps(dict(
                    s, clause='replay-plain-blinding-refused')) + '\n')
                s = None
        if s is None:
            out.ev(c)
            continue
        pick = {p: (s[c[p] - 1][p] if c[p] else
                    {'value': '01' + s[0]['v'], 'proof': '',
                     'nonce': '01' + g.h(32)}[p])
                for p in ('key', 'script', 'value', 'asset', 'nonce', 'proof')}
        o = {p: pick[p] for p in ('asset', 'value', 'nonce', 'script')}
        e, _ = unblind(g, pick['key'], o, pick['proof'])
        r = e['r']
        bad = set()
        if c['ok']:
            w = s[c['proof'] - 1]
            if r['kind'] != 'ok':
                bad.add('right-key-does-not-unblind')
            else:
                for f, x in (('amt', 'v'), ('asset', 'a'), ('abf', 'abf'),
                             ('bf', 'bf')):
                    if w[x] is not None and r[f] != w[x]:
                        bad.add('unblinded-' + f)
        elif r['kind'] == 'ok':
            bad.add('unblinded-with-wrong-data')
        elif r['kind'] != 'fail':
            bad.add('exception-instead-of-failure')
        out.ev(c)
        for b in bad:
            res.write(json.dumps(dict(e, case=c, clause='replay-' + b)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    if sys.argv[1].startswith('replay'):
        setup('elements')
        Z.use_ideal()
        {'replay': replay, 'replayun': replayun,
         'replayinfo': replayinfo}[sys.argv[1]](*sys.argv[2:4])
        return
    mode, path = sys.argv[1:3]
    setup('elements')
    Z.use_ideal()
    g = Blinder(SEED * 1000 + len(mode))
    f = 6 if THOROUGH else 1
    out = Out(path)
    if mode == 'out':
        valid(out, g, 1800 * f, issuance=0.12)
        zero_last(out, g)
    elif mode == 'refuse':
        refuse(out, g, 2000 * f)
        valid(out, g, 150 * f)
    elif mode == 'aux':
        # foreign inputs and extra generators
        valid(out, g, 500 * f, issuance=0.2, foreign=1.0)
    elif mode == 'iss':
        valid(out, g, 1600 * f, issuance=0.7)
    elif mode == 'unblind':
        unblinds(out, g, 3000 * f)
    elif mode == 'info':
        infos(out, g, 300 * f)
    elif mode == 'result':
        made(out)
        refuse(out, g, 200 * f)
        valid(out, g, 200 * f, issuance=0.3)
        unblinds(out, g, 400 * f)
    out.close()


if __name__ == '__main__':
    main()
