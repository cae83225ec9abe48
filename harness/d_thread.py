"""Threads working on things of their own, switched at chosen points (C33).

d_thread.py trace OUT | d_thread.py replay CASES RES
"""
import hashlib
import multiprocessing
import os
import pickle
import random
import sys
import threading

from elib import *  # noqa
from elib import H, mk_tx, mk_out, ab_tx, observe, outcome, Out
import addrlib
import d_blind as DB
import zkplib as Z
import bitcointx.wallet as bw
import elementstx.wallet as ew
from bitcointx import get_current_chain_params
from bitcointx.core import CTransaction, CMutableTransaction
from bitcointx.core.key import CKey
from bitcointx.core.script import (
    SIGHASH_Type, SIGVERSION_BASE, SIGVERSION_WITNESS_V0
)
from elementstx.core import (
    CAsset, generate_asset_entropy, calculate_asset,
    calculate_reissuance_token, derive_blinding_key,
)
from elementstx.core.secp256k1 import get_secp256k1
from elementstx.core.script import CElementsScript, TaprootElementsScriptTree

HERE = os.path.dirname(os.path.abspath(elementstx.__file__)) + os.sep
CHAINS = ('elements', 'elements/liquidv1')
FAR = 10 ** 9
PATIENCE = [5.0]     # less when threads turn out to wait for each other
FUNCS = ('generator_parse', 'generator_generate', 'generator_generate_blinded',
         'generator_serialize', 'pedersen_commit',
         'pedersen_commitment_serialize', 'pedersen_commitment_parse',
         'pedersen_blind_generator_blind_sum', 'rangeproof_sign',
         'rangeproof_rewind', 'rangeproof_info',
         'surjectionproof_allocate_initialized', 'surjectionproof_generate',
         'surjectionproof_verify', 'surjectionproof_serialized_size',
         'surjectionproof_serialize', 'surjectionproof_destroy')


# ------------------------------------------------------------- operations
def o_blind(g):
    while True:
        q, sks, custom = g.request(issuance=0.3)
        if any(q['opks']):
            break
    kw = DB.mk_kwargs(g, q, custom)
    seed = g.r.random()
    opened = [(i, sk) for i, sk in enumerate(sks) if sk]

    def fn():
        rr = random.Random(seed)
        k = dict(kw, _rand_func=lambda n: rr.getrandbits(8 * n).to_bytes(n, 'big'))
        tx = mk_tx(q['tx'], 'mut')
        r = tx.blind(**k)
        s = [str(DB.see_res(r, None, len(tx.vout))), tx.serialize().hex()]
        if r.ok:
            for i, sk in opened[:1]:
                w = tx.wit.vtxoutwit[i]
                u, x = outcome(tx.vout[i].unblind_confidential_pair,
                               CKey(H(sk)), w.rangeproof)
                s.append(str(DB.see_unb(u, x)))
                s.append(str(w.get_rangeproof_info()))
        return s
    return fn


def o_unblind(g):
    c = DB.crafted(g)
    sk, o, rp = next(c)
    t = mk_out(o, g.chance(0.5))

    def fn():
        r, x = outcome(t.unblind_confidential_pair, CKey(H(sk)), H(rp))
        return str(DB.see_unb(r, x))
    return fn


def o_info(g):
    p = Z.rp_of(g.amount(), H(g.factor()), H(g.h(64)), g.b(32), g.b(33),
                g.b(33), b'', 1, g.r.randrange(18), g.r.randrange(64)).hex()
    return lambda: str(DB.info(DB.Blinder(5), p, 'imm'))


def o_commit(g):
    a = g.h(32)
    return lambda: CAsset(H(a)).to_commitment()


def o_wire(g):
    t = g.tx()
    raw = mk_tx(t).serialize()

    def fn():
        x = CTransaction.deserialize(raw)
        m = CMutableTransaction.deserialize(raw)
        return [x.serialize().hex(), x.GetTxid().hex(), str(ab_tx(m)), repr(x),
                str(m.to_immutable() == x), m.GetHash().hex(),
                str(x.get_virtual_size())]
    return fn


def o_sign(g, tx=None):
    if tx is None:
        t = g.tx(nin=2, nout=2)
        tx = mk_tx(t, g.pick('mut', 'imm', 'imm', 'imm'))
    o = [mk_out(g.vout()) for _ in tx.vin]
    s = CElementsScript(g.b(30))
    amt = mk_out(g.vout()).nValue
    ht = SIGHASH_Type(g.pick(1, 1, 1, 2, 3, 0x81, 0x83))
    i = g.r.randrange(len(tx.vin))

    def fn():
        return [observe(lambda: f()) for f in (
            lambda: s.sighash(tx, i, ht),
            lambda: s.sighash(tx, i, ht, amount=amt,
                              sigversion=SIGVERSION_WITNESS_V0),
            lambda: s.sighash_schnorr(tx, i, o, hashtype=ht,
                                      genesis_block_hash=bytes(32)))]
    return fn


def o_ids(g):
    p, c = CElementsOutPoint(g.b(32), 1), g.b(32)

    def fn():
        e = generate_asset_entropy(p, c)
        return [calculate_asset(e).to_hex(),
                calculate_reissuance_token(e, True).to_hex()]
    return fn


def o_key(g):
    k, s = CKey(H(g.sec())), g.b(25)
    return lambda: derive_blinding_key(k, s).secret_bytes


def o_addr(g):
    chain = None

    a = [(c, k) + tuple(map(str, (addrlib.make(g, c, k, True)[0],)))
         for c in CHAINS for k in ('p2pkh', 'p2wpkh', 'p2wsh')]
    key = addrlib.pub(g)

    def fn():
        r = []
        for c, k, s in a:
            def f():
                x = bw.CCoinAddress(s)
                u = x.to_unconfidential()
                y = type(x).from_unconfidential(u, type(x.blinding_pubkey)(key))
                return ' '.join((type(x).__name__, str(u), str(y),
                                 x.to_scriptPubKey().hex()))
            r.append(observe(f))
        return r
    return fn


def o_tree(g):
    ls = [CElementsScript(g.b(20), name=n) for n in 'abc']
    x = CKey(H(g.sec())).xonly_pub
    sub = TaprootElementsScriptTree(ls[1:])

    def fn():
        t = TaprootElementsScriptTree([ls[0], sub])
        t.set_internal_pubkey(x)
        s, c = t.get_script_with_control_block('b')
        return [t.merkle_root.hex(), t.output_pubkey.hex(), s.hex(), c.hex()]
    return fn


def o_made(g):
    t = g.tx(nin=2, nout=2)
    route = g.pick('imm', 'gimm', 'mut2im', 'mut', 'gmut', 'append', 'im2mut')

    def fn():
        x = mk_tx(t, route)
        return [str(ab_tx(x)), str(x), repr(x.vout), x.serialize().hex(),
                str(x.to_mutable() == x)]
    return fn


def view():
    p = get_current_chain_params()
    return [type(p).__name__, p.name, str(p.RPC_PORT), p.get_network_id(),
            type(CTransaction()).__name__,
            str(bw.P2WPKHCoinAddress.from_bytes(b'\7' * 20)),
            str(bw.P2SHCoinAddress.from_bytes(b'\7' * 20)),
            str(ew.P2WPKHCoinConfidentialAddress.from_bytes(
                b'\2' * 33 + b'\7' * 20)),
            type(bw.CCoinKey.from_secret_bytes(b'\1' * 32)).__name__]


def o_look(g):
    return view


def o_within(g):
    c = g.pick(*CHAINS)

    def fn():
        with ChainParams(c):
            r = view()
        return r + view()
    return fn


def o_select(g):
    def fn():
        now = get_current_chain_params().name
        select_chain_params([c for c in CHAINS if c != now][0])
        return view()
    return fn


KINDS = {'use': (o_blind, o_blind, o_unblind, o_info, o_commit),
         'ask': (o_wire, o_sign, o_ids, o_key, o_addr, o_tree, o_made, o_look,
                 o_within),
         'select': (o_select,)}


def text(r):
    s = r if isinstance(r, str) else repr(r)
    return s if len(s) < 60 else hashlib.sha256(s.encode()).hexdigest()


# ------------------------------------------------------------- scheduling
class Sched:
    """Runs threads one at a time, each up to a number of points: lines of
    elementstx executed, its frames entered and left, or calls into the
    library begun and ended."""

    def __init__(self, work, chains, mode):
        self.n, self.mode = len(work), mode
        self.me = threading.local()
        if mode == 'calls':
            self.stand_in()
        self.go = [threading.Semaphore(0) for _ in work]
        self.back = threading.Semaphore(0)
        self.count, self.limit = [0] * self.n, [0] * self.n
        self.done = [False] * self.n
        self.ends = [[] for _ in work]
        self.got = [[] for _ in work]
        self.free = False
        self.where = []
        self.ths = [threading.Thread(target=self.body, daemon=True,
                                     args=(i, work[i], chains[i]))
                    for i in range(self.n)]
        for t in self.ths:
            t.start()

    def point(self, i):
        self.count[i] += 1
        while self.count[i] > self.limit[i] and not self.free:
            self.back.release()
            self.go[i].acquire()

    def stand_in(self):
        lib = get_secp256k1().lib
        for f in FUNCS:
            def call(*a, real=getattr(lib, 'secp256k1_' + f)):
                i = getattr(self.me, 'i', None)
                if i is None:
                    return real(*a)
                self.point(i)
                r = real(*a)
                self.point(i)
                return r
            setattr(lib, 'secp256k1_' + f, call)

    def body(self, i, fns, chain):
        self.go[i].acquire()
        self.me.i = i
        want = {'lines': ('line',), 'frames': ('call', 'return')}.get(self.mode)

        def local(frame, event, arg):
            if event in want:
                if self.n == 1:
                    self.where.append((frame.f_code.co_filename, frame.f_lineno))
                self.point(i)
            return local

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(HERE):
                return None
            return local(frame, event, arg)
        select_chain_params(chain)
        for fn in fns:
            if want:
                sys.settrace(enter)
            try:
                r = text(fn())
            except Exception as e:
                r = '!' + type(e).__name__ + ' ' + str(e)[:40]
            finally:
                sys.settrace(None)
            self.got[i].append(r)
            self.ends[i].append(self.count[i])
        self.done[i] = True
        self.back.release()

    def run(self, segs):
        """segs: (thread, points up to which it goes)."""
        for i, upto in segs + [(i, FAR) for i in range(self.n)]:
            if self.done[i] or self.free or upto <= self.count[i]:
                continue
            self.limit[i] = upto
            self.go[i].release()
            if not self.back.acquire(timeout=PATIENCE[0]):
                # it waits for another one: let all go
                self.free = True
                for s in self.go:
                    s.release()
        for t in self.ths:
            t.join(30)
        return not all(self.done)


class Crashed(Exception):
    pass


def apart(fn):
    r, wr = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    if os.waitpid(pid, 0)[1]:
        raise Crashed
    return pickle.loads(b)


def alone(work, chains, mode):
    """Each thread by itself, in a process of its own."""
    def one(i):
        def f():
            s = Sched([work[i]], [chains[i]], mode)
            s.run([])
            return s.got[0], s.ends[0], s.where
        return f
    return [apart(one(i)) for i in range(len(work))]


def together(work, chains, mode, segs):
    def f():
        s = Sched(work, chains, mode)
        stuck = s.run(segs)
        return s.got, stuck, s.free
    try:
        got, stuck, waited = apart(f)
    except Crashed:
        return [['crashed'] * len(w) for w in work], False
    if waited:
        PATIENCE[0] = max(PATIENCE[0] / 2, 0.1)
    return got, stuck


def event(kinds, chains, base, got, stuck, segs):
    return {'stuck': stuck, 'segs': segs, 'threads': [
        {'chain': c, 'ops': [
            {'k': k, 'alone': a, 'got': x} for k, a, x in
            zip(ks, b[0], g + ['missing'] * (len(ks) - len(g)))]}
        for ks, c, b, g in zip(kinds, chains, base, got)]}


def measured(g, work, chains, mode=None):
    mode = mode or g.pick('lines', 'frames', 'frames', 'calls', 'calls')
    base = alone(work, chains, mode)
    if not all(b[1][-1] for b in base):
        mode = 'lines'
        base = alone(work, chains, mode)
    return mode, base


def pick_ops(g, kinds, shared=None):
    ops, names = [], []
    for k in kinds:
        f = g.pick(*KINDS[k])
        if shared is not None and k == 'ask' and g.chance(0.5):
            ops.append(o_sign(g, shared))
            names.append('shared')
        else:
            ops.append(f(g))
            names.append(f.__name__[2:])
    return ops, names


def swept(g, same):
    """Threads with the same kind of operation, of their own or on shared
    immutable things: one interrupted by the other everywhere."""
    shared = mk_tx(g.tx(nin=2, nout=2), 'imm') if g.chance(0.3) else None
    work = [[o_sign(g, shared) if shared and same is o_sign else same(g)]
            for _ in range(2)]
    names = [[same.__name__[2:]]] * 2
    chains = [g.pick(*CHAINS), g.pick(*CHAINS)]
    mode, base = measured(g, work, chains, 'lines')
    by = {}
    for k, x in enumerate(base[0][2]):
        by.setdefault(x, []).append(k + 1)
    points = sorted(g.pick(*x) for x in by.values())
    while len(points) > 150:
        del points[g.r.randrange(len(points))]
    for k in points:
        yield mode, work, names, chains, base, [(0, k), (1, FAR)]


def mixed(g):
    n = g.pick(2, 2, 3)
    shared = mk_tx(g.tx(nin=2, nout=2), 'imm') if g.chance(0.4) else None
    work, names, chains = [], [], []
    same = g.pick(None, None, 'use', 'ask')
    for i in range(n):
        ks = [same or g.pick('use', 'use', 'ask', 'ask', 'select')
              for _ in range(g.pick(1, 1, 2))]
        w, k = pick_ops(g, ks, shared)
        work.append(w)
        names.append(k)
        chains.append(g.pick(*CHAINS))
    mode, base = measured(g, work, chains)
    total = [b[1][-1] for b in base]
    for k in range(24):
        segs, at = [], [0] * n
        if k < 14:
            # one interruption, all over the operation
            i = g.r.randrange(n)
            segs = [(i, int((k + g.r.random()) / 14 * total[i]) + 1)]
            segs += [(j, FAR) for j in range(n) if j != i]
        else:
            for _ in range(g.pick(2, 3, 4, 8, 30)):
                i = g.r.randrange(n)
                at[i] = g.r.randrange(at[i], total[i] + 2)
                segs.append((i, at[i]))
        yield mode, work, names, chains, base, segs


OPS = [o_blind, o_unblind, o_info, o_commit, o_wire, o_sign, o_sign, o_ids, o_key,
       o_addr, o_tree, o_made, o_within, o_select]


def case(k):
    g = DB.Blinder(SEED * 7700 + 33 + k)
    evs = []
    for mode, work, names, chains, base, segs in (
            swept(g, OPS[k // 2 % len(OPS)]) if k % 2 else mixed(g)):
        got, stuck = together(work, chains, mode, segs)
        evs.append(event(names, chains, base, got, stuck, segs))
    return evs


def trace(out, f):
    with multiprocessing.get_context('fork').Pool(8) as p:
        for evs in p.imap(case, range(112 * f), chunksize=1):
            for e in evs:
                out.ev(e)


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    g = DB.Blinder(SEED + 33)
    steps = {'use': 5, 'ask': 2, 'select': 1}
    cases = [json.loads(x) for x in open(src)]
    by = {}
    for c in cases:
        by.setdefault(json.dumps(c['prog']), []).append(c)
    for prog in sorted(by):
        prog_ = json.loads(prog)
        for k, c in enumerate(by[prog]):
            if k % 12 == 0:
                work, names = zip(*(pick_ops(g, p) for p in prog_))
                mode, base = measured(g, work, CHAINS)
                marks = []
                for p, b in zip(prog_, base):
                    m, at = [], 0
                    for kind, end in zip(p, b[1]):
                        s = steps[kind]
                        m += [(at + (end - at) * j / s, at + (end - at) * (j + 1) / s)
                              for j in range(s)]
                        at = end
                    marks.append(m)
            segs, at = [], [0, 0]
            for j, t in enumerate(c['who']):
                t -= 1
                lo, hi = marks[t][at[t]]
                at[t] += 1
                if j + 1 < len(c['who']) and c['who'][j + 1] == t + 1:
                    continue
                segs.append((t, int(g.r.uniform(lo, hi)) + 1))
            got, stuck = together(work, CHAINS, mode, segs)
            e = event(names, CHAINS, base, got, stuck, segs)
            bad = sorted({'replay-other-threads-change-result-of-' + o['k']
                          for t in e['threads'] for o in t['ops']
                          if o['got'] != o['alone']})
            if stuck:
                bad.append('replay-threads-block-each-other')
            out.ev(c)
            for b in bad:
                res.write(json.dumps(dict(e, case=c, clause=b)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    setup('elements')
    # (not asked for: the first thread that needs the library loads it)
    elementstx.set_custom_secp256k1_path(os.environ['VERIF_ZKP'])
    if sys.argv[1] == 'replay':
        replay(sys.argv[2], sys.argv[3])
        return
    out = Out(sys.argv[2])
    trace(out, 8 if THOROUGH else 1)
    out.close()


if __name__ == '__main__':
    main()
