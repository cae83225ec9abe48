"""Script trees, tweaked keys and tapscript signature hashes (C23).

d_tap.py trace OUT | d_tap.py replay CASES RES
"""
import sys

from elib import *  # noqa
from elib import Gen, Out, observe, outcome
import elib
from bitcointx.core.key import (
    CKey, XOnlyPubKey, check_tap_tweak, tap_tweak_pubkey
)
from bitcointx.core.script import (
    CScript, TaprootScriptTree, SIGVERSION_TAPSCRIPT, SIGHASH_Type
)
from bitcointx.wallet import P2TRCoinAddress, CCoinKey
from bitcointx.core.serialize import BytesSerializer
from elementstx.core import CoreElementsParams
from elementstx.core.script import (
    CElementsScript, ElementsSignatureHashSchnorr, TaprootElementsScriptTree
)

G = Gen(SEED * 104729 + 23)
HT = {0: None, 1: 1, 2: 2, 3: 3, 129: 129, 130: 130, 131: 131}


def build(t, n, key=None, consent=False):
    """A tree as described; key given at construction or set afterwards."""
    leaves = []
    for leaf in t['leaves']:
        if leaf['t'] == 's':
            cls = (CScript, CElementsScript)[n % 2]
            leaves.append(cls(H(leaf['script']), name=leaf['name']))
        else:
            leaves.append(build(leaf, n + 1, None, True))
    cls = (TaprootScriptTree, TaprootElementsScriptTree)[n // 2 % 2]
    kw = {}
    if t['lv'] != 256:
        kw['leaf_version'] = t['lv']
    if consent:
        kw['accept_unconventional_leaf_version'] = True
    how = n % 3
    if key is not None and how == 0:
        kw['internal_pubkey'] = key
    r = cls(leaves if n % 2 else tuple(leaves), **kw)
    if key is not None and how:
        if how == 2:     # another key first
            r.set_internal_pubkey(CKey(b'\x05' * 32).xonly_pub)
        r.set_internal_pubkey(key)
    return r


def names(t):
    return [n for leaf in t['leaves']
            for n in ([leaf['name']] if leaf['t'] == 's' else names(leaf))]


def hx(v):
    return v if isinstance(v, str) and v.startswith('!') else bytes(v).hex()


def see_leaf(tree, name):
    r, exc = outcome(tree.get_script_with_path_and_leaf_version, name)
    if exc or r is None:
        r = (exc or '!None', exc or '!None', exc or '!None')
    r2, exc = outcome(tree.get_script, name)
    p2, exc = outcome(tree.get_script_path, name)
    v2, exc = outcome(tree.get_script_leaf_version, name)
    c, exc = outcome(tree.get_script_with_control_block, name)
    if exc or c is None:
        c = (exc or '!None', exc or '!None')
    return {'script': hx(r[0]), 'path': hx(r[1]) if p2 == r[1] else '!differs',
            'lv': r[2] if v2 == r[2] and isinstance(v2, int) else -1,
            'script2': '!' if r2 is None else hx(r2),
            'cbscript': hx(c[0]), 'cb': hx(c[1])}


def flip(b):
    return bytes([b[0] ^ 1]) + b[1:]


def signed(ck, root, outkey, n):
    def f():
        h = G.b(32)
        sig = ck.sign_schnorr_tweaked(h, merkle_root=root)
        return bool(XOnlyPubKey(outkey).verify_schnorr(h, sig))
    return observe(f)


def see_tree(t, ck, consent, n, pick, tx, spent, idx, ht, gen):
    """Everything there is to see of a tree."""
    key = None if ck is None else ck.xonly_pub
    e = {'subok': True}
    for leaf in t['leaves']:
        if leaf['t'] == 't' and outcome(build, leaf, n + 1, None, True)[1]:
            e['subok'] = False
    tree, exc = outcome(build, t, n, key, consent)
    if exc:
        return dict(e, root=exc)
    e['root'] = hx(tree.merkle_root)
    e['cls'] = type(tree).__name__
    e['other'] = ''.join(
        'x' for f in (tree.get_script, tree.get_script_path,
                      tree.get_script_leaf_version,
                      tree.get_script_with_path_and_leaf_version)
        if f('no such name') is not None)
    e['leaves'] = [see_leaf(tree, x) for x in names(t)]
    if ck is None:
        e['out'] = '' if tree.output_pubkey is None else hx(tree.output_pubkey)
        e['parity'] = 2 if tree.parity is None else int(tree.parity)
        e['pick'] = 0
        return e
    e['out'] = hx(tree.output_pubkey)
    e['parity'] = int(tree.parity)
    a, exc = outcome(P2TRCoinAddress.from_script_tree, tree)
    e['spk'] = exc or hx(a.to_scriptPubKey())
    m, p, o = tree.merkle_root, tree.parity, tree.output_pubkey
    e['check'] = [outcome(check_tap_tweak, o, key, merkle_root=m, parity=p)[0],
                  outcome(check_tap_tweak, o, key, merkle_root=m, parity=not p)[0],
                  outcome(check_tap_tweak, o, key, merkle_root=flip(m), parity=p)[0]]
    e['signed'] = signed(ck, m, o, n)
    e['pick'] = pick
    if pick:
        name = names(t)[pick - 1]
        s, _, lv = tree.get_script_with_path_and_leaf_version(name)
        kw = dict(genesis_block_hash=H(gen))
        if HT[ht] is not None:
            kw['hashtype'] = SIGHASH_Type(ht)
        outs = [mk_out(o) for o in spent]
        e['sigscript'] = observe(lambda: s.sighash_schnorr(tx, idx, outs, **kw))
        lh = CoreElementsParams.tapleaf_hasher(
            bytes([lv]) + BytesSerializer.serialize(s))
        e['sigleaf'] = observe(lambda: ElementsSignatureHashSchnorr(
            tx, idx, outs, sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=lh, **kw))
    return e


CONV = list(range(192, 256, 2)) + [102, 126, 128, 132, 150, 152, 186, 188, 190]


class Grow:
    def __init__(self):
        self.n = 0

    def script(self, big=False):
        self.n += 1
        k = G.pick('', '51', 'ac', G.h(4), '20' + G.h(32) + 'ac', 'c4', '%02x' % (self.n % 256))
        if big:
            k = G.h(G.pick(252, 253, 254, 520, 10000, 65535, 65536))
        return {'t': 's', 'name': 's%d' % self.n, 'script': k}

    def tree(self, depth, width, big):
        n = G.pick(*range(1, width + 1))
        leaves = []
        for _ in range(n):
            if depth and G.chance(0.35):
                leaves.append(self.tree(depth - 1, width, big))
            else:
                leaves.append(self.script(G.chance(big)))
        if n == 1 and leaves[0]['t'] == 't':
            leaves[0] = self.script()
        lv = 256
        if any(x['t'] == 's' for x in leaves) and G.chance(0.3):
            lv = G.pick(*CONV, 192, 196)
        return {'t': 't', 'lv': lv, 'leaves': leaves}


def seckey(n):
    return CCoinKey.from_secret_bytes(G.b(31) + bytes([1 + n % 255]))


def tree_event(out, t, consent, n, ck, pick=None):
    nin = 1 + n % 2
    tj = G.tx(nin, 1 + n % 2, G.pick('none', 'both'))
    spent = [G.vout() for _ in range(nin)]
    idx, ht, gen = n % nin, G.pick(*HT), G.h(32)
    k = len(names(t))
    if pick is None:
        pick = 0 if k == 0 or ck is None else 1 + n % k
    e = see_tree(t, ck, consent, n, pick, mk_tx(tj), spent, idx, ht, gen)
    out.ev(dict(e, k='tree', tree=t, consent=consent,
                key='' if ck is None else ck.xonly_pub.hex(),
                tx=tj, spent=spent, idx=idx, ht=ht, gen=gen),
           nontrivial=not e['root'].startswith('!') and ck is not None)


def trace(out):
    n = 900 if THOROUGH else 260
    for k in range(n):
        if k % 40 == 0:
            setup(('elements', 'elements/liquidv1')[k // 40 % 2])
        g = Grow()
        d, w = G.pick((0, 1), (0, 2), (0, 3), (0, 7), (1, 3), (2, 3), (3, 4), (2, 5))
        t = g.tree(d, w, 0.03)
        tree_event(out, t, G.chance(0.2), k, None if k % 12 == 5 else seckey(k))
    # every leaf version
    for lv in list(range(0, 257)) + [258, 300]:
        for consent in (False, True):
            g = Grow()
            t = {'t': 't', 'lv': lv, 'leaves': [g.script() for _ in range(1 + lv % 3)]}
            tree_event(out, t, consent, lv, seckey(lv), pick=None if lv % 20 == 0 else 0)
    # shapes that are refused
    g = Grow()
    sub = {'t': 't', 'lv': 256, 'leaves': [g.script(), g.script()]}
    one = {'t': 't', 'lv': 192, 'leaves': [g.script()]}
    for t in ({'t': 't', 'lv': 256, 'leaves': []},
              {'t': 't', 'lv': 192, 'leaves': []},
              {'t': 't', 'lv': 256, 'leaves': [sub]},
              {'t': 't', 'lv': 256, 'leaves': [one]},
              {'t': 't', 'lv': 196, 'leaves': [sub, one]},
              {'t': 't', 'lv': 256, 'leaves': [sub, one]},
              {'t': 't', 'lv': 256, 'leaves': [one, sub, g.script()]}):
        for i in range(3):
            tree_event(out, t, i == 1, i, seckey(i))
    # long lists and long chains of trees
    for size in (16, 31, 33, 100) + ((255, 256, 700) if THOROUGH else ()):
        g = Grow()
        t = {'t': 't', 'lv': 256, 'leaves': [g.script() for _ in range(size)]}
        tree_event(out, t, False, size, seckey(size))
    for depth in (8, 40) + ((127, 128) if THOROUGH else ()):
        g = Grow()
        t = {'t': 't', 'lv': 256, 'leaves': [g.script(), g.script()]}
        for i in range(depth - 1):
            t = {'t': 't', 'lv': G.pick(256, 192), 'leaves': [g.script(), t]
                 if i % 2 else [t, g.script()]}
        tree_event(out, t, False, depth, seckey(depth))
    # keys that commit to no script
    for k in range(200 if THOROUGH else 60):
        ck = seckey(k)
        pub = ck.xonly_pub
        arg = (pub, ck.pub, bytes(pub), bytes(ck.pub))[k % 4]
        a, exc = outcome(P2TRCoinAddress.from_pubkey, arg)
        r = tap_tweak_pubkey(pub)
        o, p = r
        out.ev({'k': 'key', 'key': pub.hex(), 'spk': exc or a.to_scriptPubKey().hex(),
                'check': [check_tap_tweak(o, pub, parity=p),
                          check_tap_tweak(o, pub, parity=not p)],
                'signed': signed(ck, b'', o, k)})


def name_all(t, n=0):
    for leaf in t['leaves']:
        if leaf['t'] == 's':
            n += 1
            leaf['name'] = 'n%d' % n
        else:
            n = name_all(leaf, n)
    return n


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')

    def judge(c, n):
        tree, exc = outcome(build, c['tree'], n,
                            XOnlyPubKey(H(c['key'])) if c['ok'] else None)
        if not c['ok']:
            return None if exc else 'replay-bad-tree-accepted'
        if exc:
            return 'replay-tree-refused'
        if hx(tree.merkle_root) != c['root']:
            return 'replay-merkle-root'
        if hx(tree.output_pubkey) != c['out'] or int(tree.parity) != c['parity']:
            return 'replay-output-key'
        for i, leaf in enumerate(c['leaves']):
            s = see_leaf(tree, 'n%d' % (i + 1))
            cb = '%02x' % (leaf['lv'] + c['parity']) + c['key'] + leaf['path']
            if (s['script'], s['script2'], s['cbscript']) != (leaf['script'],) * 3:
                return 'replay-script-by-name'
            if s['lv'] != leaf['lv'] or s['path'] != leaf['path']:
                return 'replay-merkle-path'
            if s['cb'] != cb:
                return 'replay-control-block'

    for n, line in enumerate(open(src)):
        c = json.loads(line)
        name_all(c['tree'])
        clause = judge(c, n)
        out.ev(c, c['ok'])
        if clause:
            res.write(json.dumps(dict(c, clause=clause)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


setup('elements')
if sys.argv[1] == 'replay':
    replay(sys.argv[2], sys.argv[3])
else:
    out = Out(sys.argv[2])
    trace(out)
    out.close()
