"""Where the secrets of blindings come from (C34).

d_secret.py trace OUT | replay CASES RES
"""
import os
import sys


class System:
    """Stands before the system's randomness, and notes what it gives."""

    def __init__(self):
        self.real = {n: getattr(os, n) for n in ('urandom', 'getrandom')}
        self.log, self.limit, self.once = None, None, False
        os.urandom = lambda n: self.give('urandom', n)
        os.getrandom = lambda n, flags=0: self.give('getrandom', n, flags)

    def give(self, how, n, *a):
        if self.log is None:
            return self.real[how](n, *a)
        if self.limit is not None and sum(map(len, self.log)) + n > self.limit:
            if self.once:
                self.limit = None
            raise OSError('no randomness')
        b = self.real[how](n, *a)
        self.log.append(b)
        return b


assert not {'random', 'secrets', 'elementstx'} & set(sys.modules)
SYS = System()

import pickle  # noqa: E402
from d_blind import *  # noqa: E402
from d_blind import Blinder, Z, concrete, mk_kwargs  # noqa: E402
from d_fault import ALLOC, apart, content  # noqa: E402
from elib import *  # noqa: E402
from elementstx.core.secp256k1 import get_secp256k1  # noqa: E402

SEEDS = []


def watch_seeds():
    lib = get_secp256k1().lib
    real = getattr(lib, 'secp256k1_' + ALLOC)

    def call(*a):
        SEEDS.append(content(a[8])[:32].hex())
        return real(*a)
    setattr(lib, 'secp256k1_' + ALLOC, call)


class Source:
    """A source of one's own."""

    def __init__(self, name, seed, limit=None, once=False):
        self.name, self.log, self.limit, self.once = name, [], limit, once
        self.rr = random.Random(seed)

    def __call__(self, n):
        if self.limit is not None and sum(map(len, self.log)) + n > self.limit:
            if self.once:
                self.limit = None
            raise OSError('no more')
        b = self.rr.getrandbits(8 * n).to_bytes(n, 'big') if n else b''
        self.log.append(b)
        return b


def same_bytes(log):
    b = b''.join(log)
    at = [0]

    def give(n):
        if at[0] + n > len(b):
            raise OSError('more was asked for than before')
        at[0] += n
        return b[at[0] - n:at[0]]
    return give


def proofs(t):
    p = pad(t)
    return ([w['rp'] for w in p['outwit']],
            [w[f] for w in p['inwit'] for f in ('ar', 'kr')])


def attempt(g, q, kw, how, rand, limit=None, once=False):
    """One blinding: what is seen of it, and the draws."""
    tx = mk_tx(q['tx'], how[0])
    kw = dict(kw)
    kw.pop('_rand_func', None)
    if rand is not None:
        kw['_rand_func'] = rand
    before = proofs(ab_tx(tx))
    mark = len(rand.log) if isinstance(rand, Source) else 0
    del SEEDS[:]
    SYS.log, SYS.limit, SYS.once = [], limit, once
    try:
        if how[1]:
            r, x = outcome(tx.blind, **kw)
        else:
            r, x = outcome(blind_transaction, tx, **kw)
    finally:
        oslog, SYS.log = SYS.log, None
    res = see_res(r, x, len(tx.vout))
    post = see_tx(tx)
    outs, iss = [], []
    if isinstance(post, dict):
        after = proofs(post)
        outs = [{'i': i + 1, 'rp': a, 'nonce': post['vout'][i]['nonce']}
                for i, (a, b) in enumerate(zip(after[0], before[0])) if a != b]
        iss = [{'rp': a} for a, b in zip(after[1], before[1]) if a != b]
    log = rand.log[mark:] if isinstance(rand, Source) else oslog
    return {'src': rand.name if isinstance(rand, Source) else 'os', 'kind':
            res['kind'], 'outs': outs, 'iss': iss, 'seeds': list(SEEDS),
            'last': max([0] + [i + 1 for i, k in enumerate(q['opks']) if k]),
            'log': log, 'whole': (res, observe(tx.serialize))}


class Ledger:
    """Finds the secrets in what the sources gave."""

    def __init__(self):
        self.streams, self.starts = {}, {}

    def enter(self, c, same='', granted=False, broken=False):
        s = self.streams.setdefault(c['src'], bytearray())
        starts = self.starts.setdefault(c['src'], [])
        new = []
        for b in c['log']:
            new.append(len(s))
            s.extend(b)
        starts[:0] = new
        outs = [dict(o, bf=self.find(s, o['rp'][40:104]),
                     abf=self.find(s, o['rp'][172:236]),
                     eph=self.find_key(s, starts, o['nonce'])) for o in c['outs']]
        iss = [dict(o, bf=self.find(s, o['rp'][40:104])) for o in c['iss']]
        return {'src': c['src'], 'drawn': b''.join(c['log']).hex(), 'kind': c['kind'],
                'outs': outs, 'iss': iss, 'last': c['last'],
                'seeds': [{'v': v, 'at': self.find(s, v)} for v in c['seeds']],
                'same': same, 'granted': granted, 'broken': broken}

    def find(self, s, v):
        return s.find(H(v)) + 1 if len(v) == 64 else 0

    def find_key(self, s, starts, pub):
        def there(i):
            k, x = outcome(CKey.from_secret_bytes, bytes(s[i:i + 32]))
            return not x and bytes(k.pub).hex() == pub
        for places in (starts, range(len(s) - 31)):
            for i in places:
                if there(i):
                    return i + 1
        return 0


WAYS = ('mut', 'gmut', 'im2mut'), (True, False)


def session(out, g):
    led = Ledger()
    calls, made, sources, before = [], [], [], []
    friends = [g.sec() for _ in range(2)]
    for n in range(g.pick(1, 2, 3, 4)):
        if before and g.chance(0.3):
            q, kw = g.r.choice(before)          # once more the same
        else:
            while True:
                q, sks, custom = g.request(issuance=0.3, nout=g.pick(1, 2, 2, 3),
                                           foreign=0.1)
                if any(q['opks']) or g.chance(0.05):
                    break
            if g.chance(0.5):
                q['opks'] = [k and g.pub(g.r.choice(friends)) for k in q['opks']]
            if g.chance(0.15):
                spoilers(g, q, sks)[g.r.randrange(12)]()
            elif g.chance(0.15):
                # nothing proves where this comes from
                q['tx']['vout'][0]['asset'] = '01' + g.h(32)
                q['strict'] = g.chance(0.5)
            kw = mk_kwargs(g, q, custom)
            before.append((q, kw))
        # the source gives no more, or fails just once
        limit = g.pick(None, None, None, 32 * g.r.randrange(12))
        once = g.chance(0.5)
        src, rand = g.pick('os', 'os', 'own', 'own', 'again'), None
        child = g.chance(0.25)
        if src == 'again' and sources and not child:
            rand, limit = g.r.choice(sources), None
        elif src != 'os':
            rand = Source('own%d' % n, g.r.random(), limit, once)
            if limit is None and not child:
                sources.append(rand)
        how = g.r.choice(WAYS[0]), g.r.choice(WAYS[1])

        def do():
            return attempt(g, q, kw, how, rand, limit, once)
        c = apart(do) if child else do()
        e = led.enter(c, broken=limit is not None)
        calls.append(e)
        made.append((e, c, q, kw, how))
        if g.chance(0.3):
            again(g, *g.r.choice(made))
    for m in made:
        if not m[0]['same'] and g.chance(0.4):
            again(g, *m)
    out.ev({'calls': calls}, any(c['outs'] for c in calls))


def again(g, e, c, q, kw, how):
    """The same request, and a source that gives the same."""
    if e['broken']:
        return
    d = attempt(g, q, kw, how, same_bytes(c['log']))
    e['same'] = 'T' if d['whole'] == c['whole'] and d['seeds'] == c['seeds'] else 'F'


def trace(path):
    out = Out(path)
    g = Blinder(SEED * 37 + 5)
    for _ in range(3000 if THOROUGH else 400):
        session(out, g)
    out.close()


# --------------------------------------------------------- cases of the model
def request(g, shape, friends):
    q, sks, custom = concrete(g, {
        'ins': [{'k': 'bl', 'iss': {'form': 'A' if shape['iss'] else 'none',
                                    'ak': bool(shape['iss']), 'tk': False}}],
        'strict': g.chance(0.5),
        'outs': [{'a': 'in1', 'k': 'key'} for _ in range(shape['outs'])]})
    if friends:
        q['opks'] = [g.pub(friends[i % len(friends)])
                     for i in range(shape['outs'])]
    return q, friends or sks


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    g = Blinder(SEED + 4)
    for line in open(src):
        case = json.loads(line)
        led, bad, own, prev, calls = Ledger(), set(), None, None, []
        taken = {}
        for n, c in enumerate(case):
            if prev and c['to'] == 'same' and prev[2] == c['shape']:
                q, sks = prev[:2]
            else:
                q, sks = request(g, c['shape'],
                                 prev and c['to'] == 'same' and prev[1])
            prev = q, sks, c['shape']
            limit = None if c['gives'] >= 1000 else 32 * c['gives']
            rand = None
            if c['src'] == 'own':
                rand = own = Source('own%d' % n, g.r.random(), limit)
            elif c['src'] == 'again':
                rand = own
                rand.limit = limit if limit is None else \
                    limit + sum(map(len, rand.log))
            kw = mk_kwargs(g, q, '')
            how = g.r.choice(WAYS[0]), g.r.choice(WAYS[1])

            def do():
                return attempt(g, q, kw, how, rand, limit)
            e = led.enter(apart(do) if c['child'] else do())
            calls.append(e)
            if (e['kind'] == 'ok') != c['ok']:
                bad.add('source-runs-dry' if not c['ok'] else 'request-refused')
            spots = [o['bf'] for o in e['iss']] + [v['at'] for v in e['seeds']]
            for o in e['outs']:
                spots += [o['abf'], o['eph']]
                if o['i'] != e['last']:
                    spots.append(o['bf'])
            if 0 in spots:
                bad.add('secret-not-drawn')
            for at in filter(None, spots):
                ts = taken.setdefault(e['src'], [])
                if any(abs(at - t) < 32 for t in ts):
                    bad.add('secret-drawn-before')
                ts.append(at)
            if c['ok'] and len(spots) != c['fresh'] and not bad:
                bad.add('number-of-secrets')
        out.ev(case)
        for b in sorted(bad):
            res.write(json.dumps({'case': case, 'calls': calls,
                                  'clause': 'replay-' + b}) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    setup('elements')
    Z.use_ideal()
    watch_seeds()
    if sys.argv[1] == 'replay':
        replay(*sys.argv[2:4])
    else:
        trace(sys.argv[2])


if __name__ == '__main__':
    main()
