"""Records chains of transactions blinded by one or several parties.

d_ledger.py trace OUT | d_ledger.py replay CASES RES
"""
import sys

from d_blind import *  # noqa
from d_blind import Blinder, NUL, amt8, conf, see_unb, unblind, do_blind
import zkplib as Z

NPARTY = 3


class Coin:
    def __init__(self, op, out, rp, owner, sk, desc=None):
        self.op, self.out, self.rp = op, out, rp
        self.owner, self.sk, self.desc = owner, sk, desc
        self.spent = False

    def gen(self):
        a = self.out['asset']
        return a if a[:2] in ('0a', '0b') else CAsset(H(a[2:])).to_commitment().hex()


def null_desc():
    return {'asset': NUL, 'amt': amt8(0), 'neg': False, 'bf': NUL, 'abf': NUL}


def amt_of(d):
    return struct.unpack('>Q', H(d['amt']))[0]


class World:
    def __init__(self, g):
        self.g = g
        self.steps = []
        self.coins = []
        self.tokens = {}     # token id -> (entropy, asset id)

    def fund(self):
        g = self.g
        assets = [g.h(32) for _ in range(g.pick(1, 2, 3))]
        cs = []
        for p in range(NPARTY):
            for _ in range(g.pick(1, 2)):
                a, v = g.pick(*assets), g.r.randrange(50, 10 ** 9)
                out = {'asset': '01' + a, 'value': '01' + amt8(v),
                       'nonce': '', 'script': '0014' + g.h(20)}
                c = Coin(g.h(32) + g.pick('00000000', '01000000', '07000000'),
                         out, '', p, '', {'asset': a, 'amt': amt8(v),
                                          'neg': False, 'bf': NUL, 'abf': NUL})
                self.coins.append(c)
                cs.append({'op': c.op, 'out': out, 'gen': c.gen()})
        self.steps.append({'k': 'fund', 'coins': cs})

    def parts(self, v, n):
        g = self.g
        r = []
        while n > 1 and v > 1:
            x = g.r.randrange(1, v)
            r.append(x)
            v -= x
            n -= 1
        return r + [v]

    def round(self):
        g = self.g
        free = [c for c in self.coins if not c.spent and c.desc]
        if not free:
            return False
        sp = g.r.sample(free, min(len(free), g.pick(1, 2, 2, 3, 4)))
        solo = g.chance(0.35)
        if solo:
            sp = [c for c in sp if c.owner == sp[0].owner]
        owners = sorted(set(c.owner for c in sp))
        g.r.shuffle(owners)
        last = owners[-1]
        multi = len(owners) > 1
        vin = []
        for c in sp:
            vin.append({'hash': c.op[:64], 'n': c.op[64:], 'seq': 'ffffffff',
                        'script': '', 'pegin': False,
                        'iss': dict(Gen.NULLISS)})
        # what each party has to distribute
        purse = {p: {} for p in owners}
        for c in sp:
            a = c.desc['asset']
            purse[c.owner][a] = purse[c.owner].get(a, 0) + amt_of(c.desc)
        iak, itk = [''] * len(sp), [''] * len(sp)
        if g.chance(0.4):
            i = g.pick(*[j for j, c in enumerate(sp) if c.owner == last])
            self.issue(i, sp[i], vin[i], purse[last], iak, itk, multi)
        # outputs
        outs = []
        for p in owners:
            mine = []
            for a, v in purse[p].items():
                for x in self.parts(v, g.pick(1, 1, 2, 2, 3)):
                    mine.append({'payer': p, 'a': a, 'v': x, 'key': False,
                                 'to': g.r.randrange(NPARTY),
                                 'script': '0014' + g.h(20)})
            for o in mine:
                o['key'] = g.chance(0.7)
            hidden = any(c.owner == p and (c.desc['bf'], c.desc['abf'])
                         != (NUL, NUL) for c in sp)
            hidden_iss = p == last and (any(iak) or any(itk))
            keyed = [o for o in mine if o['key']]
            if (hidden or hidden_iss) and not keyed:
                mine[g.r.randrange(len(mine))]['key'] = True
            elif not hidden and not hidden_iss and len(keyed) == 1:
                if len(mine) > 1:
                    for o in mine:
                        o['key'] = True
                else:
                    keyed[0]['key'] = False
            for o in mine:
                if not o['key'] and g.chance(0.2):
                    o['script'] = g.pick('', '6a')    # fee or burnt
            outs += mine
        g.r.shuffle(outs)
        vout = [{'asset': '01' + o['a'], 'value': '01' + amt8(o['v']),
                 'nonce': '', 'script': o['script']} for o in outs]
        tx = mk_tx({'ver': '02000000', 'lock': g.u32(), 'vin': vin,
                    'vout': vout, 'inwit': [], 'outwit': []},
                   g.pick('mut', 'append', 'im2mut'))
        self.steps.append({'k': 'draft', 'tx': ab_tx(tx), 'spends': [
            self.coins.index(c) + 1 for c in sp]})
        esk = [g.sec() if o['key'] else '' for o in outs]
        gens = [c.gen() for c in sp]
        for p in owners:
            tx = self.exchange(tx)
            ks = [g.pub(k) if o['key'] and o['payer'] == p else ''
                  for k, o in zip(esk, outs)]
            sks = [k if o['payer'] == p else '' for k, o in zip(esk, outs)]
            ik = iak if p == last else [''] * len(sp)
            tk = itk if p == last else [''] * len(sp)
            if not any(ks) and not any(ik) and not any(tk):
                continue
            own = [c.owner == p for c in sp]
            q = {'tx': ab_tx(tx), 'mut': True, 'typed': True,
                 'descs': [dict(c.desc) if o else null_desc()
                           for c, o in zip(sp, own)],
                 'opks': ks, 'iak': list(ik), 'itk': list(tk),
                 'aux': gens if not all(own) or g.chance(0.3) else [],
                 'strict': g.chance(0.8), 'exp': 0, 'bits': 52}
            if g.chance(0.3):
                self.misstep(q, tx, sks, outs, esk, p)
            e, _, r = do_blind(g, q, sks, "", tx=tx)
            self.steps.append(dict(e, valid=True, own=own))
            if e['res']['kind'] != 'ok':
                return False
        self.seal(tx, sp, outs, esk)
        return True

    def issue(self, i, c, vin, purse, iak, itk, multi):
        g = self.g
        tok = self.tokens.get(c.desc['asset'])
        if tok and c.desc['abf'] != NUL and g.chance(0.7):
            ent, asset = tok
            v = g.amount()
            vin['iss'] = {'nonce': c.desc['abf'], 'entropy': ent,
                          'amt': '01' + amt8(v), 'keys': ''}
            purse[asset] = purse.get(asset, 0) + v
            if g.chance(0.5):
                iak[i] = g.sec()
            return
        v, t = g.amount(), g.pick(0, 1, 2, 1000)
        vin['iss'] = {'nonce': NUL, 'entropy': g.h(32), 'amt': '01' + amt8(v),
                      'keys': '01' + amt8(t) if t else ''}
        hide = g.chance(0.5)
        if hide and t and not multi:
            iak[i], itk[i] = g.sec(), g.sec()
        elif hide and not t:
            iak[i] = g.sec()
        e = generate_asset_entropy(
            CElementsOutPoint(H(vin['hash']), u32(vin['n'])),
            H(vin['iss']['entropy']))
        a = calculate_asset(e).data.hex()
        tid = calculate_reissuance_token(e, bool(itk[i])).data.hex()
        purse[a] = v
        if t:
            purse[tid] = t
            self.tokens[tid] = (e.data.hex(), a)

    def exchange(self, tx):
        """The draft travels to the next party."""
        h = self.g.pick('same', 'bytes', 'imm', 'hex')
        if h == 'bytes':
            return CElementsMutableTransaction.deserialize(tx.serialize())
        if h == 'hex':
            return CElementsTransaction.deserialize(
                H(tx.serialize().hex())).to_mutable()
        if h == 'imm':
            return tx.to_immutable().to_mutable()
        return tx

    def misstep(self, q, tx, sks, outs, esk, p):
        """A refused call in between changes nothing."""
        g = self.g
        b = dict(q)
        k = g.pick('descs', 'again', 'extra')
        if k == 'descs':
            b['descs'] = b['descs'][1:]
        elif k == 'extra':
            b['opks'] = b['opks'] + [g.pub(g.sec())]
        else:
            done = [i for i, o in enumerate(b['tx']['vout'])
                    if o['value'][:2] in ('08', '09')]
            if not done:
                return
            b['opks'] = list(b['opks'])
            b['opks'][g.pick(*done)] = g.pub(g.sec())
        e, _, _ = do_blind(g, b, sks, "", tx=tx)
        self.steps.append(dict(e, valid=False, own=[]))

    def seal(self, tx, sp, outs, esk):
        g = self.g
        im = tx.to_immutable()
        ser = im.serialize()
        txid = im.GetTxid()
        self.steps.append({'k': 'seal', 'txid': txid.hex(), 'ser': ser.hex()})
        got = CElementsTransaction.deserialize(ser)
        for c in sp:
            c.spent = True
        first = len(self.coins)
        new = []
        for i, (o, sk) in enumerate(zip(outs, esk)):
            out = ab_out(got.vout[i])
            w = got.wit.vtxoutwit[i] if got.wit.vtxoutwit else None
            rp = w.rangeproof.hex() if w is not None else ''
            c = Coin(bytes(txid).hex() + struct.pack('<I', i).hex(), out, rp,
                     o['to'], sk)
            c.spent = o['script'] in ('', '6a')
            if not o['key']:
                c.desc = {'asset': o['a'], 'amt': amt8(o['v']), 'neg': False,
                          'bf': NUL, 'abf': NUL}
            new.append(c)
        self.coins += new
        for i, c in enumerate(new):
            if not c.sk:
                continue
            if g.chance(0.15):
                self.look(first + i, c, g.sec(), False)
            e, r = self.look(first + i, c, c.sk, True)
            if e['r']['kind'] == 'ok':
                d = r.get_descriptor()
                c.desc = {'asset': d.asset.data.hex(), 'amt': amt8(d.amount),
                          'neg': False, 'bf': d.blinding_factor.data.hex(),
                          'abf': d.asset_blinding_factor.data.hex()}

    def look(self, i, c, sk, owner):
        e, r = unblind(self.g, sk, c.out, c.rp)
        self.steps.append(dict(e, coin=i + 1, owner=owner))
        return e, r


# ---------------------------------------------- behaviours of SplitMC
def replay(src, dst):
    g = Blinder(SEED + 3)
    out = Out(dst + '.all')
    res = open(dst, 'w')
    w = World(g)
    for line in open(src):
        c = json.loads(line)
        bad = set()
        cfg = c['cfg'] if isinstance(c['cfg'], list) else [
            c['cfg'][k] for k in sorted(c['cfg'])]
        want = c['res'] if isinstance(c['res'], list) else [
            c['res'][k] for k in sorted(c['res'])]
        shared = g.h(32)
        ins, outs = [], []
        for p, k in enumerate(cfg):
            a = g.pick(shared, g.h(32))
            have = 0
            for hid in [True] * k['h'] + [False] * k['e']:
                v = g.r.randrange(10, 10 ** 9)
                have += v
                ins.append({'p': p, 'asset': a, 'v': v,
                            'bf': g.sec() if hid else NUL,
                            'abf': g.sec() if hid else NUL})
            for i, v in enumerate(w.parts(have, k['k'] + 1)):
                outs.append({'p': p, 'a': a, 'v': v, 'key': i < k['k'],
                             'sk': g.sec()})
        g.r.shuffle(ins)
        g.r.shuffle(outs)
        gens = [Z.gen_of(H(i['asset']), H(i['abf'])).hex() for i in ins]
        tx = mk_tx({'ver': '02000000', 'lock': '00000000', 'vin': [
            g.vin(issuance=False, coinbase=False) for _ in ins],
            'vout': [{'asset': '01' + o['a'], 'value': '01' + amt8(o['v']),
                      'nonce': '', 'script': '51'} for o in outs],
            'inwit': [], 'outwit': []}, g.pick('mut', 'append'))
        facts = [(0, 0)] * len(outs)
        evs = []
        for p in c['order']:
            p -= 1
            ks = [g.pub(o['sk']) if o['key'] and o['p'] == p else ''
                  for o in outs]
            q = {'tx': None, 'mut': True, 'typed': True,
                 'descs': [{'asset': i['asset'], 'amt': amt8(i['v']),
                            'neg': False, 'bf': i['bf'], 'abf': i['abf']}
                           if i['p'] == p else null_desc() for i in ins],
                 'opks': ks, 'iak': [], 'itk': [], 'aux': gens,
                 'strict': True, 'exp': 0, 'bits': 52}
            sks = [o['sk'] if k else '' for o, k in zip(outs, ks)]
            e, _, r = do_blind(g, q, sks, "", tx=tx)
            evs.append(e)
            pre, post = pad(e['req']['tx']), pad(e['post'])
            kind = e['res']['kind']
            if kind != {'ok': 'ok', 'empty': 'ok', 'fail': 'fail'}[want[p]]:
                bad.add('outcome-of-call')
            for i, k in enumerate(ks):
                a = (pre['vout'][i], pre['outwit'][i])
                b = (post['vout'][i], post['outwit'][i])
                if not k and a != b:
                    bad.add('output-of-another-party-changed')
                if k and kind == 'ok':
                    if b[0]['value'][:2] not in ('08', '09'):
                        bad.add('own-output-not-blinded')
                        continue
                    facts[i] = (int(e['res']['bfs'][i], 16),
                                int(e['res']['abfs'][i], 16))
                    ev, u = unblind(g, outs[i]['sk'], b[0], b[1]['rp'])
                    if ev['r']['kind'] != 'ok' or ev['r']['amt'] != amt8(
                            outs[i]['v']) or ev['r']['asset'] != outs[i]['a']:
                        bad.add('owner-does-not-recover-the-coin')
        win = sum(i['v'] * int(i['abf'], 16) + int(i['bf'], 16) for i in ins)
        wout = sum(o['v'] * f[1] + f[0] for o, f in zip(outs, facts))
        if ((win - wout) % Z.N == 0) != c['complete']:
            bad.add('sealed-balance')
        out.ev(c)
        for b in bad:
            res.write(json.dumps({'case': c, 'calls': evs,
                                  'clause': 'replay-' + b}) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


def main():
    if sys.argv[1] == 'replay':
        setup('elements')
        Z.use_ideal()
        return replay(*sys.argv[2:4])
    setup('elements')
    Z.use_ideal()
    g = Blinder(SEED * 77 + 5)
    out = Out(sys.argv[2])
    for _ in range(800 if THOROUGH else 150):
        w = World(g)
        w.fund()
        for _ in range(g.pick(2, 3, 4)):
            if not w.round():
                break
        out.ev({'steps': w.steps}, sum(s['k'] == 'blind' for s in w.steps) > 1)
    out.close()


if __name__ == '__main__':
    main()
