"""Objects put together from their parts (C27).

d_ctor.py ctor OUT
d_ctor.py replay CASES RES
"""
import sys
import itertools

from elib import *  # noqa
from elib import Gen, Out, outcome
from bitcointx.core import (
    CBitcoinOutPoint, CBitcoinMutableOutPoint, CBitcoinTxIn, CBitcoinMutableTxIn,
    CBitcoinTxOut, CBitcoinMutableTxOut, CBitcoinTxInWitness,
    CBitcoinTxWitness, CBitcoinTransaction)
import bitcointx.core as BC
from bitcointx.core.script import CBitcoinScript

G = Gen(SEED * 7121 + 3)

# class -> (immutable, mutable, generic immutable, generic mutable, from_*)
FAM = {
    'outpoint': (CElementsOutPoint, CElementsMutableOutPoint, BC.COutPoint,
                 BC.CMutableOutPoint, 'from_outpoint'),
    'txin': (CElementsTxIn, CElementsMutableTxIn, BC.CTxIn, BC.CMutableTxIn,
             'from_txin'),
    'txout': (CElementsTxOut, CElementsMutableTxOut, BC.CTxOut, BC.CMutableTxOut,
              'from_txout'),
    'inwit': (CElementsTxInWitness, CElementsMutableTxInWitness,
              BC.CTxInWitness, BC.CMutableTxInWitness, 'from_txin_witness'),
    'outwit': (CElementsTxOutWitness, CElementsMutableTxOutWitness,
               BC.CTxOutWitness, BC.CMutableTxOutWitness, 'from_txout_witness'),
    'wit': (CElementsTxWitness, CElementsMutableTxWitness, BC.CTxWitness,
            BC.CMutableTxWitness, 'from_witness'),
    'tx': (CElementsTransaction, CElementsMutableTransaction, BC.CTransaction,
           BC.CMutableTransaction, 'from_tx'),
}
PLAIN = {'value': CConfidentialValue, 'asset': CConfidentialAsset,
         'nonce': CConfidentialNonce, 'issuance': CAssetIssuance,
         'from_asset': CConfidentialAsset.from_asset,
         'from_amount': CConfidentialValue.from_amount}
FIELDS = {
    'outpoint': ('hash', 'n'),
    'txin': ('prevout', 'scriptSig', 'nSequence', 'assetIssuance', 'is_pegin'),
    'txout': ('nValue', 'scriptPubKey', 'nAsset', 'nNonce'),
    'inwit': ('scriptWitness', 'issuanceAmountRangeproof',
              'inflationKeysRangeproof', 'pegin_witness'),
    'outwit': ('surjectionproof', 'rangeproof'),
    'wit': ('vtxinwit', 'vtxoutwit'),
    'tx': ('vin', 'vout', 'nLockTime', 'nVersion', 'witness'),
    'value': ('value_or_commitment',), 'asset': ('asset_or_commitment',),
    'nonce': ('commitment',),
    'issuance': ('assetBlindingNonce', 'assetEntropy', 'nAmount', 'nInflationKeys'),
    'from_asset': ('asset',), 'from_amount': ('amount',),
}


def pat(n, s=1):
    return bytes((i * 7 + s) % 256 for i in range(1, n + 1))


def one(f):
    """A small value of family f."""
    if f == 'outpoint':
        return dict(hash=pat(32, 9), n=3)
    if f == 'txin':
        return dict(prevout=CElementsOutPoint(pat(32, 9), 3), nSequence=7)
    if f == 'txout':
        return dict(nValue=CConfidentialValue(5), scriptPubKey=CElementsScript(pat(3)),
                    nAsset=CConfidentialAsset(CAsset(pat(32, 2))))
    if f == 'inwit':
        return dict(issuanceAmountRangeproof=pat(4))
    if f == 'outwit':
        return dict(rangeproof=pat(5))
    if f == 'wit':
        return dict(vtxinwit=[CElementsTxInWitness(**one('inwit'))],
                    vtxoutwit=[CElementsTxOutWitness(**one('outwit'))])
    return dict(vin=[CElementsTxIn(**one('txin'))], vout=[CElementsTxOut(**one('txout'))],
                nLockTime=9)


BITCOIN = {
    'boutpoint': lambda: CBitcoinOutPoint(pat(32, 9), 3),
    'bmoutpoint': lambda: CBitcoinMutableOutPoint(pat(32, 9), 3),
    'btxin': lambda: CBitcoinTxIn(CBitcoinOutPoint(pat(32, 9), 3)),
    'bmtxin': lambda: CBitcoinMutableTxIn(CBitcoinOutPoint(pat(32, 9), 3)),
    'btxout': lambda: CBitcoinTxOut(5, CBitcoinScript(pat(3))),
    'bmtxout': lambda: CBitcoinMutableTxOut(5, CBitcoinScript(pat(3))),
    'binwit': lambda: CBitcoinTxInWitness(CScriptWitness([pat(2)])),
    'bwit': lambda: CBitcoinTxWitness([CBitcoinTxInWitness(CScriptWitness([pat(2)]))]),
    'bwit0': lambda: CBitcoinTxWitness(),
    'btx': lambda: CBitcoinTransaction(),
}


def make(kind):
    """The Python value an argument of this kind is."""
    if kind == 'none':
        return None
    if kind == 'str':
        return 'x'
    if kind == 'true':
        return True
    if kind[:3] == 'int':
        return int(kind[3:])
    if kind[:5] == 'bytes':
        return pat(int(kind[5:]))
    if kind[:5] == 'array':
        return bytearray(pat(int(kind[5:])))
    if kind == 'uint256':
        return Uint256(pat(32))
    if kind == 'assetid':
        return CAsset(pat(32, 2))
    if kind == 'script':
        return CElementsScript(pat(3))
    if kind == 'bscript':
        return CBitcoinScript(pat(3))
    if kind == 'stack':
        return CScriptWitness([pat(2), b'', pat(80)])
    if kind == 'value':
        return CConfidentialValue(5)
    if kind == 'commitment':
        return CConfidentialValue(b'\x08' + pat(32))
    if kind == 'asset':
        return CConfidentialAsset(CAsset(pat(32, 2)))
    if kind == 'nonce':
        return CConfidentialNonce(b'\x02' + pat(32))
    if kind == 'issuance':
        return CAssetIssuance(Uint256(pat(32)), Uint256(pat(32, 2)), CConfidentialValue(5))
    if kind in BITCOIN:
        return BITCOIN[kind]()
    if ':' in kind:
        form, el = kind.split(':')
        el = [make(el)] if el else []
        return {'list': list, 'tuple': tuple, 'iter': lambda e: (x for x in e),
                'pair': lambda e: e + e}[form](el)
    m = kind[:1] == 'm'
    f = kind[1:] if m else kind
    return FAM[f][1 if m else 0](**one(f))


def show(v):
    """Type and content of a part of a made object."""
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'T' if v else 'F'
    if type(v) is int:
        return 'int:%d' % v
    if type(v) is bytes:
        return 'bytes:' + v.hex()
    if isinstance(v, CElementsScript):
        return 'script:' + bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + '[' + ','.join(show(x) for x in v) + ']'
    for f, c in FAM.items():
        if type(v) is c[0]:
            return f + ':' + v.serialize().hex()
        if type(v) is c[1]:
            return 'm' + f + ':' + v.serialize().hex()
    if type(v) in (CConfidentialValue, CConfidentialAsset, CConfidentialNonce,
                   CAssetIssuance, Uint256, CAsset, CScriptWitness):
        return {'CConfidentialValue': 'value', 'CConfidentialAsset': 'asset',
                'CConfidentialNonce': 'nonce', 'CAssetIssuance': 'issuance',
                'Uint256': 'uint256', 'CAsset': 'assetid',
                'CScriptWitness': 'stack'}[type(v).__name__] + ':' + v.serialize().hex()
    return repr(type(v))


def build(cls, args, mut, gen, pos):
    kw = {f: make(k) for f, k in zip(FIELDS[cls], args) if k != 'omit'}
    if cls in PLAIN:
        c = PLAIN[cls]
    else:
        c = FAM[cls][(2 if gen else 0) + (1 if mut else 0)]
    if pos and 'omit' not in args:
        return c(*kw.values())
    if pos:
        k = args.index('omit')
        if all(a == 'omit' for a in args[k:]):
            return c(*kw.values())
    return c(**kw)


def shown(cls, o):
    if cls in ('value', 'asset', 'nonce', 'from_asset', 'from_amount'):
        return [show(o.commitment)]
    return [show(getattr(o, 'wit' if f == 'witness' else f)) for f in FIELDS[cls]]


def event(cls, args, mut=False, gen=False, pos=False):
    def go():
        o = build(cls, args, mut, gen, pos)
        return o
    o, exc = outcome(go)
    e = dict(k='ctor', cls=cls, args=list(args), mut=mut, gen=gen, pos=pos,
             res='made', shown=[], kind='')
    if exc:
        e['res'] = exc
        return e
    r, exc = outcome(lambda: (shown(cls, o), show(o)))
    if exc:
        e['res'] = 'broken' + exc
        return e
    e['shown'], e['kind'] = r[0], r[1].split(':')[0]
    return e


HOWS = list(itertools.product((False, True), repeat=3))
BYTEKINDS = [a + str(n) for a in ('bytes', 'array')
             for n in (0, 1, 8, 9, 10, 31, 32, 33, 34, 80)]
INTKINDS = ['int0', 'int1', 'int5', 'int4294967294', 'int4294967295', 'int4294967296',
            'int-1', 'int-2', 'int2147483648', 'int2100000000000000',
            'int9223372036854775807', 'int9223372036854775808']
ELS = ['txin', 'mtxin', 'txout', 'mtxout', 'inwit', 'minwit', 'outwit', 'moutwit',
       'outpoint', 'int5', 'none', 'btxin', 'btxout', 'binwit']
KINDS = (['none', 'str', 'true', 'uint256', 'assetid', 'script', 'bscript', 'stack',
          'value', 'commitment', 'asset', 'nonce', 'issuance']
         + [m + f for f in FAM for m in ('', 'm')] + list(BITCOIN)
         + [f + ':' + e for f in ('list', 'tuple', 'iter', 'pair') for e in [''] + ELS])
# likely arguments of each kind of field
LIKELY = {
    'hash': ['bytes32', 'array32'], 'n': INTKINDS, 'prevout': ['none', 'outpoint', 'moutpoint'],
    'scriptSig': BYTEKINDS + ['none', 'script'] * 5, 'nSequence': INTKINDS,
    'assetIssuance': ['issuance'], 'is_pegin': ['true'], 'nValue': ['value', 'commitment'],
    'nAsset': ['asset'], 'nNonce': ['nonce'], 'scriptWitness': ['stack'],
    'vtxinwit': ['list:inwit', 'tuple:minwit', 'iter:inwit', 'pair:minwit', 'list:'],
    'vtxoutwit': ['list:moutwit', 'tuple:outwit', 'iter:outwit', 'pair:outwit', 'tuple:'],
    'vin': ['list:txin', 'tuple:mtxin', 'iter:txin', 'pair:mtxin', 'list:'],
    'vout': ['list:mtxout', 'tuple:txout', 'iter:mtxout', 'pair:txout', 'tuple:'],
    'nLockTime': INTKINDS, 'witness': ['none', 'wit', 'mwit'], 'nVersion': ['int5', 'int1', 'none'],
    'value_or_commitment': INTKINDS + ['bytes0', 'bytes9', 'array9', 'bytes33', 'array33'],
    'asset_or_commitment': ['assetid', 'bytes33', 'array33', 'bytes0'],
    'commitment': ['bytes0', 'bytes33', 'array33'], 'asset': ['assetid'], 'amount': INTKINDS,
    'assetBlindingNonce': ['uint256', 'assetid'], 'nAmount': ['value', 'commitment'],
}
for a, b in (('scriptPubKey', 'scriptSig'), ('pegin_witness', 'scriptWitness'),
             ('assetEntropy', 'assetBlindingNonce'), ('nInflationKeys', 'nAmount')):
    LIKELY[a] = LIKELY[b]
for a in ('issuanceAmountRangeproof', 'inflationKeysRangeproof', 'surjectionproof',
          'rangeproof'):
    LIKELY[a] = BYTEKINDS


def conv_event(cls, meth, kind, mut, gen):
    """What a converting class method makes of an argument."""
    c = FAM[cls][(2 if gen else 0) + (1 if mut else 0)]
    o, exc = outcome(lambda: getattr(c, FAM[cls][4] if meth else 'from_instance')(make(kind)))
    e = dict(k='conv', cls=cls, kind=kind, mut=mut, gen=gen, res=exc or 'made', shown='')
    if not exc:
        r, exc = outcome(show, o)
        e['shown'] = exc or r
    return e


def ctor_events(out):
    for cls in FIELDS:
        fs = FIELDS[cls]
        for i in range(len(fs)):
            for k in KINDS + BYTEKINDS + INTKINDS:
                args = ['omit'] * len(fs)
                args[i] = k
                how = HOWS if cls in FAM else [(False, False, p) for p in (False, True)]
                for mut, gen, pos in how if THOROUGH else G.r.sample(how, 2):
                    out.ev(event(cls, args, mut, gen, pos))
    for k in range(60000 if THOROUGH else 9000):
        cls = G.pick(*FAM, *FAM, *PLAIN)
        fs = FIELDS[cls]
        args = [G.pick('omit', *LIKELY[f]) if G.chance(.3) else G.pick(*LIKELY[f]) for f in fs]
        if G.chance(.5):
            args[G.r.randrange(len(fs))] = G.pick(*KINDS, *BYTEKINDS, *INTKINDS)
        out.ev(event(cls, args, *G.pick(*HOWS)) if cls in FAM else
               event(cls, args, False, False, G.chance(.5)))
    for cls in FAM:
        for kind in KINDS:
            if ':' in kind:
                continue
            for mut in (False, True):
                for gen in (False, True):
                    for meth in (False, True):
                        out.ev(conv_event(cls, meth, kind, mut, gen))


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        hows = HOWS if c['cls'] in FAM else [(False, False, p) for p in (False, True)]
        if not THOROUGH:
            hows = [hows[(n + d) % len(hows)] for d in (0, 3)]
        for mut, gen, pos in hows:
            w = c['mutable' if mut else 'immutable']
            if w['res'] == 'any':
                continue
            e = event(c['cls'], c['args'], mut, gen, pos)
            bad = ''
            if w['res'] == 'made':
                if e['res'] != 'made':
                    bad = 'good-parts-refused'
                elif e['shown'] != w['shown']:
                    bad = 'parts-not-kept'
            elif e['res'][:1] != '!':
                bad = 'bad-parts-accepted'
            out.ev(e)
            if bad:
                res.write(json.dumps(dict(e, want=w, clause='replay-' + bad)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    setup('elements')
    if sys.argv[1] == 'replay':
        replay(sys.argv[2], sys.argv[3])
        return
    out = Out(sys.argv[2])
    ctor_events(out)
    out.close()


main()
