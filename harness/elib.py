"""Bridge between abstract transactions (JSON: hex text) and elementstx objects.

Only public API of the code under test is used.  Runs in the interpreter that
has elementstx importable.
"""
import json
import os
import random
import resource
import struct
import sys

import elementstx  # noqa: F401  (registers the chains)
from bitcointx import select_chain_params, ChainParams  # noqa: F401
from bitcointx.core import (
    CTransaction, CMutableTransaction, CTxIn, CTxOut, CMutableTxIn,
    CMutableTxOut, COutPoint, CMutableOutPoint, CTxWitness, CTxInWitness,
    CMutableTxWitness, CMutableTxInWitness, CTxOutWitness,
    CMutableTxOutWitness, Uint256, x, lx, b2x
)
from bitcointx.core.script import CScriptWitness, CScript
from elementstx.core import *  # noqa: F401,F403
from elementstx.core import (
    CElementsTxOutWitness, CElementsMutableTxOutWitness,
    CAsset, CAssetIssuance, CConfidentialAsset, CConfidentialValue,
    CConfidentialNonce, CElementsOutPoint, CElementsMutableOutPoint,
    CElementsTxIn, CElementsMutableTxIn, CElementsTxOut,
    CElementsMutableTxOut, CElementsTransaction, CElementsMutableTransaction,
    CElementsTxWitness, CElementsMutableTxWitness, CElementsTxInWitness,
    CElementsMutableTxInWitness
)
from elementstx.core.script import CElementsScript

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'

# a length taken from the wrong place must not take the whole machine's memory
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


REPO_DIR = os.path.dirname(os.path.dirname(os.path.abspath(elementstx.__file__)))


def blame(exc):
    """Tell apart a driver at fault and the code under test: it raised, or gave
    the driver something that has no place in the specification's domain."""
    last, tb = None, exc.__traceback__
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(os.path.dirname(os.path.abspath(__file__)) + os.sep):
            last = None
        elif fn.startswith(REPO_DIR + os.sep):
            last = fn
        tb = tb.tb_next
    if last:
        return '@CODE-UNDER-TEST-RAISED'
    if isinstance(exc, (TypeError, ValueError, LookupError, AttributeError,
                        AssertionError, OverflowError, struct.error)) \
            and not (getattr(exc, 'name', None) or '').startswith('_'):
        return '@OBSERVATION-UNINTERPRETABLE'
    return ''


def _excepthook(tp, exc, tb):
    sys.__excepthook__(tp, exc, tb)
    print(blame(exc), file=sys.stderr)


sys.excepthook = _excepthook


def plain(e):
    """What TLC cannot read (an observation nobody expects), as text."""
    if isinstance(e, dict):
        return {k: plain(v) for k, v in e.items()}
    if isinstance(e, (list, tuple)):
        return [plain(v) for v in e]
    return '?' + repr(e) if e is None or isinstance(e, float) else e


class Out:
    """ndjson event sink with a few counters for the evidence file."""

    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0
        self.seen = set()
        self.nontrivial = 0
        self.samples = []

    def ev(self, e, nontrivial=True):
        s = json.dumps(e, sort_keys=True)
        if 'null' in s or 'NaN' in s or 'Infinity' in s or '.' in s:
            s = json.dumps(plain(e), sort_keys=True)
        self.f.write(s + '\n')
        self.n += 1
        h = hash(s)
        if h not in self.seen:
            self.seen.add(h)
            if nontrivial:
                self.nontrivial += 1
                if len(self.samples) < 3 and len(s) < 4000:
                    self.samples.append(e)

    def close(self, **extra):
        self.f.close()
        d = {'events': self.n, 'distinct_nontrivial': self.nontrivial,
             'samples': self.samples}
        d.update(extra)
        with open(self.f.name + '.stats', 'w') as f:
            json.dump(d, f)


def observe(fn, *a, **kw):
    """Outcome of a call as text: the value, or '!ExceptionName'."""
    try:
        r = fn(*a, **kw)
    except Exception as e:
        return '!' + type(e).__name__
    if isinstance(r, bool):
        return 'T' if r else 'F'
    if isinstance(r, (bytes, bytearray)):
        return bytes(r).hex()
    return r


def outcome(fn, *a, **kw):
    """(value, None) or (None, '!Exc')."""
    try:
        return fn(*a, **kw), None
    except Exception as e:
        return None, '!' + type(e).__name__


# ---------------------------------------------------------------- generator
class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def b(self, n):
        return self.r.getrandbits(8 * n).to_bytes(n, 'big') if n else b''

    def h(self, n):
        return self.b(n).hex()

    def pick(self, *xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    def size(self, big=False):
        if big:
            return self.pick(252, 253, 254, 255, 256, 300, 519, 520, 521)
        return self.pick(0, 0, 1, 1, 2, 3, 22, 23, 25, 34, 75, 76, 77)

    def script(self, big=False):
        if self.chance(0.3) and not big:
            return self.pick(
                '', '6a', '51', 'ab', 'abac', '76a914' + self.h(20) + '88ac',
                'a914' + self.h(20) + '87', '0014' + self.h(20),
                '0020' + self.h(32), '5120' + self.h(32), '6a20' + self.h(32),
                '6a20' + self.h(32) + '01' + self.h(1))
        return self.h(self.size(big))

    def u32(self):
        return struct.pack('<I', self.pick(
            0, 1, 2, 255, 256, 65535, 65536, 499999999, 500000000,
            0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
            self.r.getrandbits(32))).hex()

    def ver(self):
        return self.pick(struct.pack('<i', self.pick(
            1, 2, 2, 0, -1, 3, 0x7fffffff, -0x80000000)).hex(),
            self.h(4))

    def cvalue(self, kinds='nec'):
        k = self.pick(*kinds)
        if k == 'n':
            return ''
        if k == 'e':
            return '01' + struct.pack('>Q', self.pick(
                0, 1, 2, 255, 256, 100000000, 2100000000000000,
                2100000000000001, 0x7fffffffffffffff, 0x8000000000000000,
                0xffffffffffffffff, self.r.getrandbits(50),
                self.r.getrandbits(64))).hex()
        return self.pick('08', '09') + self.h(32)

    def casset(self, kinds='nec'):
        k = self.pick(*kinds)
        if k == 'n':
            return ''
        if k == 'e':
            return '01' + self.pick(self.h(32), self.h(32), '00' * 32)
        return self.pick('0a', '0b') + self.h(32)

    def cnonce(self, kinds='nnec'):
        k = self.pick(*kinds)
        if k == 'n':
            return ''
        if k == 'e':
            return '01' + self.h(32)
        return self.pick('02', '03') + self.h(32)

    NULLISS = {'nonce': '00' * 32, 'entropy': '00' * 32, 'amt': '', 'keys': ''}

    def iss(self):
        m, k = self.pick(('e', 'n'), ('e', 'e'), ('n', 'e'), ('c', 'n'),
                         ('c', 'c'), ('e', 'c'), ('c', 'e'), ('n', 'c'))
        return {'nonce': self.pick('00' * 32, self.h(32)),
                'entropy': self.pick('00' * 32, self.h(32), self.h(32)),
                'amt': self.cvalue(m), 'keys': self.cvalue(k)}

    def vin(self, issuance=None, pegin=None, coinbase=None, script=None):
        if coinbase is None:
            coinbase = self.chance(0.06)
        if coinbase:
            return {'hash': self.pick('00' * 32, self.h(32)), 'n': 'ffffffff',
                    'script': self.h(self.pick(0, 2, 5, 100)),
                    'seq': self.u32(), 'pegin': False, 'iss': dict(self.NULLISS)}
        if issuance is None:
            issuance = self.chance(0.35)
        if pegin is None:
            pegin = self.chance(0.25)
        n = self.pick(0, 0, 1, 2, 255, 256, 65536, 0x3ffffffe, 0x3fffffff,
                      0x20000000, self.r.getrandbits(30))
        if issuance and pegin and n == 0x3fffffff:
            n = 0x3ffffffe
        return {'hash': self.h(32), 'n': struct.pack('<I', n).hex(),
                'script': self.script() if script is None else script,
                'seq': self.u32(), 'pegin': pegin,
                'iss': self.iss() if issuance else dict(self.NULLISS)}

    def vout(self, script=None):
        if self.chance(0.1):
            return {'asset': self.casset('e'), 'value': self.cvalue('e'),
                    'nonce': self.cnonce(), 'script': ''}
        return {'asset': self.casset(), 'value': self.cvalue(),
                'nonce': self.cnonce(),
                'script': self.script() if script is None else script}

    def stack(self):
        return [self.h(self.pick(0, 1, 33, 71, 72))
                for _ in range(self.pick(0, 0, 1, 2, 3))]

    def inwit(self, null=False):
        if null:
            return {'ar': '', 'kr': '', 'sw': [], 'pw': []}
        return {'ar': self.h(self.pick(0, 0, 0, 1, 40)),
                'kr': self.h(self.pick(0, 0, 0, 1, 40)),
                'sw': self.stack(), 'pw': self.pick([], [], self.stack())}

    def outwit(self, null=False):
        if null:
            return {'sp': '', 'rp': ''}
        return {'sp': self.h(self.pick(0, 0, 1, 35)),
                'rp': self.h(self.pick(0, 0, 1, 60))}

    def tx(self, nin=None, nout=None, wit=None):
        nin = self.pick(0, 1, 1, 2, 2, 3, 4) if nin is None else nin
        nout = self.pick(0, 1, 1, 2, 2, 3, 4) if nout is None else nout
        t = {'ver': self.ver(), 'lock': self.u32(),
             'vin': [self.vin() for _ in range(nin)],
             'vout': [self.vout() for _ in range(nout)],
             'inwit': [], 'outwit': []}
        wit = wit or self.pick('none', 'null', 'in', 'out', 'both', 'both',
                               'both', 'onlyin', 'onlyout')
        self.fill_wit(t, wit)
        return t

    def fill_wit(self, t, wit):
        nin, nout = len(t['vin']), len(t['vout'])
        nul = lambda k, n: [getattr(self, k)(True) for _ in range(n)]  # noqa
        rnd = lambda k, n: [getattr(self, k)(self.chance(0.3)) for _ in range(n)]  # noqa
        if wit == 'null':
            t['inwit'], t['outwit'] = nul('inwit', nin), nul('outwit', nout)
        elif wit == 'in':
            t['inwit'], t['outwit'] = rnd('inwit', nin), nul('outwit', nout)
        elif wit == 'out':
            t['inwit'], t['outwit'] = nul('inwit', nin), rnd('outwit', nout)
        elif wit == 'both':
            t['inwit'], t['outwit'] = rnd('inwit', nin), rnd('outwit', nout)
        elif wit == 'onlyin':
            t['inwit'] = rnd('inwit', nin)
        elif wit == 'onlyout':
            t['outwit'] = rnd('outwit', nout)


# ------------------------------------------------- abstract -> object
def H(s):
    return bytes.fromhex(s)


def conf(cls, s, how=0):
    """Confidential field from text; `how` varies the construction."""
    b = H(s)
    if how and len(b) and b[0] == 1:
        if cls is CConfidentialValue and len(b) == 9:
            v = struct.unpack('>q', b[1:])[0]
            return cls(v) if how == 1 else cls.from_amount(v)
        if cls is CConfidentialAsset:
            return cls(CAsset(b[1:])) if how == 1 \
                else cls.from_asset(CAsset(b[1:]))
    if how == 2:
        return cls(bytearray(b))
    return cls(b)


def mk_iss(j, how=0):
    return CAssetIssuance(Uint256(H(j['nonce'])), Uint256(H(j['entropy'])),
                          conf(CConfidentialValue, j['amt'], how),
                          conf(CConfidentialValue, j['keys'], how))


def u32(s):
    return struct.unpack('<I', H(s))[0]


def i32(s):
    return struct.unpack('<i', H(s))[0]


def mk_in(j, mut=False, how=0):
    op = (CElementsMutableOutPoint if how % 2 else CElementsOutPoint)(
        H(j['hash']), u32(j['n']))
    cls = CElementsMutableTxIn if mut else CElementsTxIn
    return cls(op, CElementsScript(H(j['script'])), u32(j['seq']),
               mk_iss(j['iss'], how), j['pegin'])


def mk_out(j, mut=False, how=0):
    cls = CElementsMutableTxOut if mut else CElementsTxOut
    return cls(conf(CConfidentialValue, j['value'], how),
               CElementsScript(H(j['script'])),
               conf(CConfidentialAsset, j['asset'], how),
               conf(CConfidentialNonce, j['nonce'], how))


def mk_stack(ss):
    return CScriptWitness([H(s) for s in ss])


def mk_inwit(j, mut=False, how=0):
    cls = CElementsMutableTxInWitness if mut else CElementsTxInWitness
    bt = bytearray if how == 2 else bytes
    return cls(mk_stack(j['sw']), bt(H(j['ar'])), bt(H(j['kr'])),
               mk_stack(j['pw']))


def mk_outwit(j, mut=False, how=0):
    cls = CElementsMutableTxOutWitness if mut else CElementsTxOutWitness
    bt = bytearray if how == 2 else bytes
    return cls(bt(H(j['sp'])), bt(H(j['rp'])))


def mk_wit(t, mut=False, how=0):
    cls = CElementsMutableTxWitness if mut else CElementsTxWitness
    return cls([mk_inwit(w, mut, how) for w in t['inwit']],
               [mk_outwit(w, mut, how) for w in t['outwit']])


ROUTES = ('imm', 'mut', 'gimm', 'gmut', 'append', 'im2mut', 'mut2im', 'mixed')


def mk_tx(t, route='imm'):
    how = ROUTES.index(route) % 3
    if route == 'append':
        tx = CElementsMutableTransaction()
        for j in t['vin']:
            tx.vin.append(mk_in(j, True, how))
        for j in t['vout']:
            tx.vout.append(mk_out(j, True, how))
        tx.nVersion = i32(t['ver'])
        tx.nLockTime = u32(t['lock'])
        for j in t['inwit']:
            tx.wit.vtxinwit.append(mk_inwit(j, True, how))
        for j in t['outwit']:
            tx.wit.vtxoutwit.append(mk_outwit(j, True, how))
        return tx
    if route == 'im2mut':
        return mk_tx(t, 'imm').to_mutable()
    if route == 'mut2im':
        return mk_tx(t, 'append').to_immutable()
    cls = {'imm': CElementsTransaction, 'mut': CElementsMutableTransaction,
           'gimm': CTransaction, 'gmut': CMutableTransaction,
           'mixed': CElementsTransaction}[route]
    m = route in ('mut', 'gmut')
    pm = (not m) if route == 'mixed' else m
    return cls([mk_in(j, pm, how) for j in t['vin']],
               [mk_out(j, pm, how) for j in t['vout']],
               u32(t['lock']), i32(t['ver']),
               mk_wit(t, pm, how))


# ------------------------------------------------- object -> abstract
def _b(v):
    if not isinstance(v, (bytes, bytearray)):
        raise TypeError('bytes expected')
    return bytes(v).hex()


def _u32(v):
    return struct.pack('<I', v).hex()


def ab_iss(o):
    return {'nonce': _b(o.assetBlindingNonce.data),
            'entropy': _b(o.assetEntropy.data),
            'amt': _b(o.nAmount.commitment),
            'keys': _b(o.nInflationKeys.commitment)}


def ab_in(o):
    if not isinstance(o.is_pegin, bool):
        raise TypeError
    return {'hash': _b(o.prevout.hash), 'n': _u32(o.prevout.n),
            'script': _b(o.scriptSig), 'seq': _u32(o.nSequence),
            'pegin': o.is_pegin, 'iss': ab_iss(o.assetIssuance)}


def ab_out(o):
    return {'asset': _b(o.nAsset.commitment), 'value': _b(o.nValue.commitment),
            'nonce': _b(o.nNonce.commitment), 'script': _b(o.scriptPubKey)}


def ab_inwit(o):
    return {'ar': _b(o.issuanceAmountRangeproof),
            'kr': _b(o.inflationKeysRangeproof),
            'sw': [_b(s) for s in o.scriptWitness.stack],
            'pw': [_b(s) for s in o.pegin_witness.stack]}


def ab_outwit(o):
    return {'sp': _b(o.surjectionproof), 'rp': _b(o.rangeproof)}


def ab_tx(tx):
    return {'ver': struct.pack('<i', tx.nVersion).hex(),
            'lock': _u32(tx.nLockTime),
            'vin': [ab_in(i) for i in tx.vin],
            'vout': [ab_out(o) for o in tx.vout],
            'inwit': [ab_inwit(w) for w in tx.wit.vtxinwit],
            'outwit': [ab_outwit(w) for w in tx.wit.vtxoutwit]}


def pad(t):
    """Witness lists that were never filled in stand for empty witnesses."""
    nul = {'ar': '', 'kr': '', 'sw': [], 'pw': []}
    return dict(t, inwit=t['inwit'] or [nul] * len(t['vin']),
                outwit=t['outwit'] or [{'sp': '', 'rp': ''}] * len(t['vout']))


def norm(t):
    """... and a null issuance carries no data."""
    t = pad(t)
    t['vin'] = [i if i['n'] != 'ffffffff' and (i['iss']['amt'] or i['iss']['keys'])
                else dict(i, iss=Gen.NULLISS) for i in t['vin']]
    return t


NOTX = {'ver': '', 'lock': '', 'vin': [], 'vout': [], 'inwit': [], 'outwit': []}


def see_tx(tx):
    """Observed fields, or a value that can equal no well-formed transaction."""
    try:
        return ab_tx(tx)
    except Exception:
        return NOTX


def names(tx):
    """Class names of the transaction and its parts (without duplicates)."""
    r = [type(tx).__name__]
    for seq in (tx.vin, tx.vout, tx.wit.vtxinwit, tx.wit.vtxoutwit):
        for o in seq:
            r.append(type(o).__name__)
    for i in tx.vin:
        r.append(type(i.prevout).__name__)
    r.append(type(tx.wit).__name__)
    return sorted(set(r))


def setup(chain='elements'):
    select_chain_params(chain)
