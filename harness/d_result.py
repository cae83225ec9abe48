"""Results made from arguments of every kind, handed on and looked at (C24).

d_result.py replay CASES RES
"""
import copy
import pickle
import sys

from elib import *  # noqa
from elib import Out, observe, outcome
from elementstx.core import (
    BlindingFailure, UnblindingFailure, BlindingSuccess, UnblindingSuccess,
    BlindingInputDescriptor, BlindingOrUnblindingFailure,
    BlindingOrUnblindingSuccess, BlindingOrUnblindingResult
)

CLS = dict(BlindingFailure=BlindingFailure, UnblindingFailure=UnblindingFailure,
           BlindingSuccess=BlindingSuccess, UnblindingSuccess=UnblindingSuccess)
PARAMS = {'BlindingSuccess': ('num_successfully_blinded', 'blinding_factors',
                              'asset_blinding_factors'),
          'UnblindingSuccess': ('asset', 'amount', 'blinding_factor', 'asset_blinding_factor'),
          'BlindingFailure': ('error_msg',), 'UnblindingFailure': ('error_msg',)}
U, V = Uint256(b'\x05' * 32), Uint256(b'\xff' * 32)
A = CAsset(b'\x07' * 32)
VALUES = {
    'text': 'some reason', 'blank': ' ', 'long': 'x' * 5000, 'odd': '\x00\u20ac"%s{}\n',
    'empty': '', 'error': ValueError('reason'), 'list': ['reason'], 'bytes': b'\x05' * 32,
    'none': None, 'zero': 0, 'one': 1, 'two': 2, 'float': 1.0, 'digits': '1',
    'none0': [], 'one1': [U], 'two2': [U, V], 'tuple2': (V, U), 'bytes1': [b'\x05' * 32],
    'null1': [None], 'mixed2': [U, b'\x05' * 32], 'text1': '1',
    'asset': A, 'uint': U, 'conf': CConfidentialAsset(A),
    'max': 21 * 10 ** 14, 'above': 21 * 10 ** 14 + 1, 'minus': -1, 'huge': 2 ** 80}


def kind(v):
    """The name of what is found in a field."""
    for k, w in VALUES.items():
        if type(v) is type(w) and v == w:
            return k
    return 'foreign ' + repr(v)[:80]


def make(c):
    ks = PARAMS[c['cls']]
    kw = {p: VALUES[k] for p, k in zip(ks, c['args']) if k != 'absent'}
    if c['named'] or 'absent' in c['args'][:-1]:
        return CLS[c['cls']](**kw)
    return CLS[c['cls']](*[kw[p] for p in ks if p in kw])


HAND = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
        'pickle': lambda o: pickle.loads(pickle.dumps(o))}


def put(o, n, v):
    setattr(o, n, v)
    return 'set'


def look(c, o):
    f = isinstance(o, BlindingOrUnblindingFailure)
    ps = PARAMS[c['cls']]
    d = []
    if hasattr(o, 'get_descriptor'):
        x = o.get_descriptor()
        d = [kind(v) for p, v in zip(ps, x)]
        if type(x) is not BlindingInputDescriptor or x._fields != ps:
            d = ['not a descriptor']
    return {'made': 'T', 'class': type(o).__name__, 'ok': observe(lambda: o.ok),
            'error': kind(o.error), 'truth': observe(lambda: bool(o)),
            'untruth': observe(lambda: not o),
            'failure': observe(lambda: isinstance(o, BlindingOrUnblindingFailure)
                               and isinstance(o, BlindingOrUnblindingResult)),
            'success': observe(lambda: isinstance(o, BlindingOrUnblindingSuccess)
                               and isinstance(o, BlindingOrUnblindingResult)),
            'fields': [] if f else [kind(getattr(o, p)) for p in ps],
            'descriptor': d,
            'setok': observe(lambda: put(o, 'ok', True)),
            'seterror': observe(lambda: put(o, 'error', ''))}


def run(c):
    o, exc = outcome(make, c)
    if exc:
        return {'made': 'F'}
    for h in c['hops']:
        if h == 'look':
            look(c, o), str(o), repr(o)
        else:
            # what cannot be handed on this way stays where it is
            n, exc = outcome(HAND[h], o)
            o = o if exc else n
    return look(c, o)


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for line in open(src):
        c = json.loads(line)
        got = run(c)
        out.ev(dict(k='result', cls=c['cls'], args=c['args'], named=c['named'],
                    hops=c['hops'], see=got))
        if got != c['see']:
            res.write(json.dumps(dict(c, got=got, clause='replay-result-'
                                      + ('contents' if got['made'] == c['see']['made'] == 'T'
                                         else 'made'))) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


if __name__ == '__main__':
    setup('elements')
    replay(sys.argv[2], sys.argv[3])
