"""How the crypto library is used, also when its calls fail (C31, C32).

d_fault.py contract OUT | fault OUT | replay CASES RES
"""
import os
import pickle
import sys

from d_blind import *  # noqa
from d_blind import Blinder, Z
from elib import *  # noqa
from elementstx.core.secp256k1 import get_secp256k1

# Arguments after the context.  O: opaque object to be written, I: opaque
# object, A: several of them, B: buffer, L: size by reference, N: number,
# X: index, P: surjection proof, Q: where to put a new one, -: not looked at
SIGS = {
    'generator_parse': 'OB',
    'generator_generate': 'OB',
    'generator_generate_blinded': 'OBB',
    'generator_serialize': 'BI',
    'pedersen_commit': 'OB-I',
    'pedersen_commitment_serialize': 'BI',
    'pedersen_commitment_parse': 'OB',
    'pedersen_blind_generator_blind_sum': 'SSSNN',
    'rangeproof_sign': 'BL-IBBNN-BNBNI',
    'rangeproof_rewind': 'B-BLB--IBNBNI',
    'rangeproof_info': '----BN',
    'surjectionproof_allocate_initialized': 'Q-BNNBNB',
    'surjectionproof_generate': 'PANIXBB',
    'surjectionproof_verify': 'PANI',
    'surjectionproof_serialized_size': 'P',
    'surjectionproof_serialize': 'BLP',
    'surjectionproof_destroy': 'P',
}
ALLOC, DESTROY = 'surjectionproof_allocate_initialized', 'surjectionproof_destroy'
NEVER = ('surjectionproof_serialized_size', DESTROY)


def content(a):
    if a is None:
        return b''
    if isinstance(a, (bytes, bytearray)):
        return bytes(a)
    if hasattr(a, '_obj'):
        a = a._obj
    return bytes(a)


def number(a):
    if hasattr(a, '_obj'):
        a = a._obj
    return int(getattr(a, 'value', a) or 0)


def address(a):
    if hasattr(a, '_obj'):
        a = a._obj
    if a is None or isinstance(a, int):
        return a or 0
    return a.value or 0


class Watch:
    """Stands between the code and the library."""

    def __init__(self):
        s = get_secp256k1()
        self.ctxs = {}
        for n in ('verify', 'sign', 'blind'):
            c = getattr(s.ctx, n)
            self.ctxs[address(c)] = n
        self.names, self.made, self.proofs = {}, {'g': set(), 'c': set()}, {}
        self.nproofs = 0
        self.fail = None
        self.take()
        for f in SIGS:
            real = getattr(s.lib, 'secp256k1_' + f)
            setattr(s.lib, 'secp256k1_' + f, self.stand_in(f, real))

    def take(self):
        """The calls since the last time, and what they used of before."""
        r = getattr(self, 'calls', []), {
            'gens': sorted(getattr(self, 'oldg', ())),
            'coms': sorted(getattr(self, 'oldc', ()))}
        self.calls, self.oldg, self.oldc = [], set(), set()
        self.before = {k: set(v) for k, v in self.made.items()}
        self.counts, self.hits = {}, 0
        return r

    def name(self, b):
        if len(b) < 64 or not any(b):
            return '?'
        return self.names.setdefault(b, 'o%d' % len(self.names))

    def proof(self, a):
        p = address(a)
        return self.proofs.get(p, ['?%d' % p, False]) if p else ['', False]

    def stand_in(self, f, real):
        def call(*args):
            a = list(args)
            ctx = 'none'
            if f != DESTROY:
                ctx = self.ctxs.get(address(a.pop(0)), 'none')
            c = {'f': f, 'ctx': ctx, 'ok': False, 'sz': [], 'ins': [],
                 'out': '', 'p': ''}
            made = where = entry = None
            for role, x in zip(SIGS[f], a):
                if role in 'OB':
                    c['sz'].append(len(content(x)))
                    if role == 'O':
                        made = x
                elif role == 'S':
                    c['sz'].append(len(x))
                elif role in 'LNX':
                    c['sz'].append(number(x))
                elif role == 'I':
                    c['sz'].append(len(content(x)))
                    c['ins'].append(self.name(content(x)[:64]))
                elif role == 'A':
                    b = content(x)
                    c['sz'].append(len(b))
                    c['ins'] += [self.name(b[i:i + 64])
                                 for i in range(0, len(b), 64)]
                elif role == 'Q':
                    where = x
                elif role == 'P':
                    entry = self.proof(x)
                    c['p'] = entry[0]
            for n in c['ins']:
                if n in self.before['g']:
                    self.oldg.add(n)
                if n in self.before['c']:
                    self.oldc.add(n)
            self.counts[f] = self.counts.get(f, 0) + 1
            hit = self.fail and f not in NEVER and self.fail[0] == f \
                and self.fail[1] in (0, self.counts[f])
            late = hit and self.fail[2] and f != ALLOC
            self.hits += bool(hit)
            ret = 0
            # what would write beyond a buffer is not let through
            small = made is not None and len(content(made)) < 64 or f in (
                'rangeproof_sign', 'surjectionproof_serialize') \
                and c['sz'][0] < c['sz'][1]
            gone = entry is not None and entry[0] != '' and not entry[1]
            if gone and f == 'surjectionproof_serialized_size':
                ret = 34
            elif not gone and not small and (late or not hit):
                ret = real(*args)
            if hit:
                ret = 0
            if f == DESTROY:
                if entry[0]:
                    entry[1] = False
                c['ok'], ret = True, None
            else:
                c['ok'] = bool(ret)
            if c['ok'] and made is not None:
                c['out'] = self.name(content(made)[:64])
                self.made['c' if 'pedersen' in f else 'g'].add(c['out'])
            if c['ok'] and where is not None:
                self.nproofs += 1
                c['p'] = 'p%d' % self.nproofs
                self.proofs[address(where)] = [c['p'], True]
            self.calls.append(c)
            return ret
        return call


NOFAULT = {'f': '', 'n': 0, 'late': False}


def see(w, what, op, kind, strict=True, asked=0, n=0, fault=None, again='',
        granted=False):
    hit = w.hits > 0
    calls, old = w.take()
    return {'k': what, 'op': op, 'kind': kind, 'strict': strict, 'asked': asked,
            'n': n, 'calls': calls, 'old': old, 'hit': hit, 'again': again,
            'granted': granted, 'fault': fault or NOFAULT}


# ------------------------------------------------------ the contract (C31)
class Sink:
    """Takes the events of d_blind; passes on the calls behind them."""

    def __init__(self, out, w):
        self.out, self.w = out, w

    def ev(self, e, nontrivial=True):
        r = e.get('res') or e.get('r')
        kind = r.get('kind') or r.get('ok') if isinstance(r, dict) else r
        e = see(self.w, 'contract', e['k'], str(kind))
        self.out.ev(e, bool(e['calls']))


def contract(out, w, f):
    g = Blinder(SEED * 31 + 1)
    s = Sink(out, w)
    valid(s, g, 150 * f, issuance=0.3)
    valid(s, g, 60 * f, issuance=0.3, foreign=1.0)
    refuse(s, g, 300 * f)
    zero_last(s, g)
    unblinds(s, g, 500 * f)
    infos(s, g, 20 * f)
    for o, case in ops(g, w, 12 * f):
        for flt in faults(g, w, o, 14):
            o.run(w, flt)
            e = see(w, 'contract', o.op, o.kind, fault=dict(
                zip(('f', 'n', 'late'), flt)))
            out.ev(e)


# ----------------------------------------------------------- operations
class Op:
    """Something that can be done again and again in the same way."""

    def __init__(self, op, fn, strict=True, asked=0):
        self.op, self.fn, self.strict, self.asked = op, fn, strict, asked

    def run(self, w, flt=None):
        w.take()
        w.fail = flt
        try:
            self.kind, self.n, self.seen = self.fn()
        finally:
            w.fail = None


def blind_op(g, q, sks, custom):
    kw = mk_kwargs(g, q, custom)
    seed = g.r.random()
    ways = g.pick('imm', 'mut'), g.pick(True, False)

    def fn():
        rr = random.Random(seed)
        kw['_rand_func'] = lambda n: rr.getrandbits(8 * n).to_bytes(n, 'big')
        tx = mk_tx(q['tx'], 'mut')
        if ways[1]:
            r, x = outcome(tx.blind, **kw)
        else:
            r, x = outcome(blind_transaction, tx, **kw)
        res = see_res(r, x, len(tx.vout))
        return res['kind'], res['n'], (res, observe(tx.serialize))
    asked = sum(1 for k in ('opks', 'iak', 'itk') for x in q[k] if x)
    return Op('blind', fn, q['strict'], asked)


def unblind_op(g, sk, o, rp):
    seed = g.r.random()

    def fn():
        e, r = unblind(Blinder(seed), sk, o, rp)
        return e['r']['kind'], 0, e['r']
    return Op('unblind', fn)


def info_op(g, rp):
    how = g.pick('imm', 'mut', 'set', 'read')
    seed = g.r.random()

    def fn():
        r = info(Blinder(seed), rp, how)['r']
        k = {'T': 'ok', 'F': 'fail'}.get(r['ok'], r['ok'])
        return k, 0, r
    return Op('info', fn)


def commit_op(a):
    def fn():
        r, x = outcome(lambda: CAsset(H(a)).to_commitment())
        return x or 'ok', 0, None if x else r.hex()
    return Op('commit', fn)


def ops(g, w, n):
    """Operations that succeed, with what the successful run did."""
    def good(o):
        o.base, o.counts = apart(lambda: clean(w, o))
        return o.base is not None
    while n:
        q, sks, custom = g.request(issuance=0.35)
        if not (any(q['opks']) or any(q['iak'])):
            continue
        o = blind_op(g, q, sks, custom)
        if not good(o):
            continue
        n -= 1
        yield o, q
        res, ser = o.base
        p = pad(ab_tx(CElementsTransaction.deserialize(H(ser))))
        looked = []
        for i, sk in enumerate(sks):
            if sk and p['outwit'][i]['rp'] and len(p['vout'][i]['value']) == 66:
                looked.append((sk, p['vout'][i], p['outwit'][i]['rp']))
        for i, sk in enumerate(q['iak']):
            if sk and p['inwit'][i]['ar']:
                looked.append((sk, {
                    'asset': '01' + g.ids(q['tx']['vin'][i], False)[0][0],
                    'value': p['vin'][i]['iss']['amt'], 'nonce': '',
                    'script': ''}, p['inwit'][i]['ar']))
        for x in looked[:2]:
            u = unblind_op(g, *x)
            if good(u):
                yield u, x
            v = info_op(g, x[2])
            if good(v):
                yield v, x
        c = commit_op(g.h(32))
        if good(c):
            yield c, None


def apart(fn):
    """What fn() gives in a process of its own, which has done no more than
    this one: whatever the code remembers is forgotten again."""
    r, wr = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    if os.waitpid(pid, 0)[1]:
        raise RuntimeError('the child failed')
    return pickle.loads(b)


def clean(w, o):
    o.run(w)
    return (o.seen if o.kind == 'ok' else None), dict(w.counts)


def faults(g, w, o, most):
    """Single calls (and all calls of a function) to fail."""
    r = []
    for f, n in sorted(o.counts.items()):
        if f in NEVER:
            continue
        for late in (False, True):
            if f == ALLOC and late:
                continue
            r += [(f, i, late) for i in range(1, n + 1)]
            if n > 1:
                r.append((f, 0, late))
    g.r.shuffle(r)
    # each function at least once
    seen, first, rest = set(), [], []
    for x in r:
        (rest if x[0] in seen else first).append(x)
        seen.add(x[0])
    return (first + rest)[:max(most, len(first))]


# ------------------------------------------------------------ failing calls
def fail_one(w, o, flt):
    return apart(lambda: fail_first(w, o, flt))


def fail_first(w, o, flt):
    o.run(w, flt)
    e = see(w, 'fault', o.op, o.kind, o.strict, o.asked, o.n, dict(
        zip(('f', 'n', 'late'), flt)), granted=True)
    o.run(w)
    e['again'] = 'T' if o.kind == 'ok' and o.seen == o.base else 'F'
    return e


def fault(out, w, f):
    g = Blinder(SEED * 31 + 2)
    for o, _ in ops(g, w, 45 * f):
        for flt in faults(g, w, o, 24):
            out.ev(fail_one(w, o, flt))
    # inputs nobody can prove anything about: no surjection proof by itself
    k = 0
    while k < 60 * f:
        q, sks, custom = g.request(issuance=0.2, nout=2)
        n = g.r.randrange(2)
        if not sks[n]:
            continue
        q['tx']['vout'][n]['asset'] = '01' + g.h(32)
        k += 1
        o = blind_op(g, q, sks, custom)
        o.run(w)
        out.ev(see(w, 'fault', o.op, o.kind, o.strict, o.asked, o.n))


# ------------------------------------------------------- cases of the model
def build(g, w, c):
    ins = [{'k': 'bl', 'iss': {'form': 'A' if c['iss'] and not i else 'none',
                               'ak': c['iss'] and not i, 'tk': False}}
           for i in range(c['ins'])]
    q, sks, custom = concrete(g, {
        'ins': ins, 'strict': c['strict'],
        'outs': [{'a': g.pick('in1', 'in2'), 'k': 'key'}
                 for _ in range(c['outs'])]})
    return q, sks, custom


def replay(src, dst, w):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    g = Blinder(SEED + 3)
    made = {}
    for line in open(src):
        c = json.loads(line)
        shape = tuple(c[k] for k in ('op', 'ins', 'iss', 'outs', 'strict'))
        if shape not in made:
            q, sks, custom = build(g, w, c)
            o = blind_op(g, q, sks, custom)
            if c['op'] != 'blind':
                seen, _ = apart(lambda: clean(w, o))
                if seen is not None:
                    p = pad(ab_tx(CElementsTransaction.deserialize(H(seen[1]))))
                    rp = p['outwit'][0]['rp']
                    o = {'unblind': lambda: unblind_op(g, sks[0], p['vout'][0], rp),
                         'info': lambda: info_op(g, rp),
                         'commit': lambda: commit_op(g.h(32))}[c['op']]()
            o.base, _ = apart(lambda: clean(w, o))
            made[shape] = o if o.base is not None else None
        o = made[shape]
        bad = set()
        flt = (c['f'], c['n'], c['late'])
        if o is None:
            e = see(w, 'fault', c['op'], '')
            bad.add('request-refused')
        else:
            e = fail_one(w, o, flt)
            done = not e['hit'] or c['ok']
            if e['kind'] == 'ok' and e['hit'] and not c['ok']:
                bad.add('failed-call-told-as-success')
            elif e['kind'] != 'ok' and done:
                bad.add('granted-request-refused')
            elif e['kind'] == 'ok' and o.op == 'blind' and e['hit'] \
                    and e['n'] != c['made']:
                bad.add('reported-count')
            if e['again'] == 'F':
                bad.add('failure-leaves-traces')
            live = [x['p'] for x in e['calls'] if x['f'] == ALLOC and x['ok']]
            gone = [x['p'] for x in e['calls'] if x['f'] == DESTROY and x['p']]
            if sorted(live) != sorted(gone):
                bad.add('surjection-proofs-not-destroyed-once')
        out.ev(c, c['f'] != '-')
        for b in sorted(bad):
            if (b == 'surjection-proofs-not-destroyed-once') == (MODE == 'keep'):
                res.write(json.dumps(dict(e, case=c, clause='replay-' + b)) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    global MODE
    setup('elements')
    Z.use_ideal()
    w = Watch()
    mode = sys.argv[1]
    if mode.startswith('replay'):
        MODE = mode[6:]
        replay(sys.argv[2], sys.argv[3], w)
        return
    out = Out(sys.argv[2])
    {'contract': contract, 'fault': fault}[mode](
        out, w, 6 if THOROUGH else 1)
    out.close()


if __name__ == '__main__':
    main()
