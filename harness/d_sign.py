"""Signing inputs and evaluating them (C30).

d_sign.py trace OUT | d_sign.py replay CASES RES
"""
import copy
import sys

from elib import *  # noqa
from elib import Gen, Out, observe, outcome
import elib
from bitcointx.core import Hash160, ValidationError
from bitcointx.wallet import CCoinKey
from bitcointx.core.key import XOnlyPubKey, tap_tweak_pubkey
from bitcointx.core.script import (
    SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGVERSION_TAPROOT,
    SIGVERSION_TAPSCRIPT, SIGHASH_Type
)
from bitcointx.core.scripteval import (
    VerifyScript, VerifySignature, SCRIPT_VERIFY_P2SH,
    SCRIPT_VERIFY_WITNESS
)
from bitcointx.core.serialize import BytesSerializer
from elementstx.core import CoreElementsParams
from elementstx.core.script import (
    CElementsScript, ElementsSignatureHashSchnorr, TaprootElementsScriptTree
)
import hashlib

G = Gen(SEED * 15485863 + 30)
KIND = {'pk': 'leg', 'pkh': 'leg', 'sh': 'leg', 'sep': 'leg', 'ms': 'leg', 'shms': 'leg',
        'wpkh': 'v0', 'shwpkh': 'v0', 'wsh': 'v0', 'shwsh': 'v0',
        'wms': 'v0', 'tr': 'key', 'trs': 'leaf'}


def push(b):
    assert len(b) < 76
    return bytes([len(b)]) + b


def sha(b):
    return hashlib.sha256(b).digest()


class Spender:
    """Knows the keys of a coin and how to put signatures in their place."""

    def __init__(self, fl, keys):
        self.fl, self.keys, self.kind = fl, keys, KIND[fl]
        p = [bytes(k.pub) for k in keys]
        pk = push(p[0]) + b'\xac'
        pkh = b'\x76\xa9' + push(Hash160(p[0])) + b'\x88\xac'
        sep = push(p[0]) + b'\xad\xab' + push(p[-1]) + b'\xac'
        tail = push(p[-1]) + b'\xac'
        ms = b'\x52' + push(p[0]) + push(p[-1]) + b'\x52\xae'
        self.witscript = self.redeem = None
        self.tree = None
        if fl in ('tr', 'trs'):
            x = keys[0].xonly_pub
            if fl == 'tr':
                self.codes = [b'']
                self.signers = [keys[0]]
                self.spk = b'\x51' + push(bytes(tap_tweak_pubkey(x)[0]))
            else:
                code = push(bytes(keys[-1].xonly_pub)) + b'\xac'
                self.codes, self.signers = [code], [keys[-1]]
                self.tree = TaprootElementsScriptTree(
                    [CElementsScript(code, name='s')], internal_pubkey=x)
                self.spk = b'\x51' + push(bytes(self.tree.output_pubkey))
            return
        self.codes, self.signers = {
            'pk': ([pk], keys[:1]), 'sh': ([pk], keys[:1]),
            'wsh': ([pk], keys[:1]), 'shwsh': ([pk], keys[:1]),
            'pkh': ([pkh], keys[:1]), 'wpkh': ([pkh], keys[:1]),
            'shwpkh': ([pkh], keys[:1]),
            'sep': ([sep, tail], [keys[0], keys[-1]]),
            'ms': ([ms, ms], [keys[0], keys[-1]]),
            'shms': ([ms, ms], [keys[0], keys[-1]]),
            'wms': ([ms, ms], [keys[0], keys[-1]])}[fl]
        whole = self.codes[0]
        self.spk = whole
        if fl in ('wsh', 'shwsh', 'wms'):
            self.witscript = whole
            self.spk = b'\x00' + push(sha(whole))
        if fl in ('wpkh', 'shwpkh'):
            self.spk = b'\x00' + push(Hash160(p[0]))
        if fl in ('sh', 'shms'):
            self.redeem = whole
        if fl in ('shwsh', 'shwpkh'):
            self.redeem = self.spk
        if self.redeem is not None:
            self.spk = b'\xa9' + push(Hash160(self.redeem)) + b'\x87'

    def sign(self, j, digest, ht):
        k = self.signers[j]
        if self.fl == 'tr':
            s = k.sign_schnorr_tweaked(digest, merkle_root=b'')
        elif self.fl == 'trs':
            s = k.sign_schnorr_no_tweak(digest)
        else:
            return k.sign(digest) + bytes([ht])
        return s + (bytes([ht]) if ht else b'')

    def place(self, sigs):
        """(scriptSig, witness stack) out of the signatures."""
        fl = self.fl
        if fl in ('tr', 'trs'):
            if fl == 'tr':
                return b'', sigs[:1]
            s, cb = self.tree.get_script_with_control_block('s')
            return b'', [sigs[0], bytes(s), bytes(cb)]
        st = list(sigs)
        if fl in ('pkh', 'wpkh', 'shwpkh'):
            st = [sigs[0], bytes(self.keys[0].pub)]
        elif fl == 'sep':
            st = [sigs[1], sigs[0]]
        elif fl in ('ms', 'shms', 'wms'):
            st = [b''] + st
        if self.kind == 'v0':
            wit = st + ([self.witscript] if self.witscript is not None else [])
            return (push(self.redeem) if self.redeem is not None else b''), wit
        ss = b''.join(push(e) if e else b'\x00' for e in st)
        if self.redeem is not None:
            ss += (push(self.redeem) if len(self.redeem) < 76
                   else b'\x4c' + bytes([len(self.redeem)]) + self.redeem)
        return ss, []


LIVING = []


def spent_list(coins, how):
    """The spent outputs, now and then in a list that lives on."""
    outs = [mk_out(c['out'], how % 3 == 1) for c in coins]
    if how % 4 == 3:
        return outs
    if len(LIVING) != len(coins):
        LIVING[:] = outs
    for i, o in enumerate(outs):
        if how % 4 == 1 or ab_out(LIVING[i]) != ab_out(o):
            LIVING[i] = o
    return LIVING


def tap_digest(tx, i, coins, ht, sp, gen, code, how=0):
    kw = dict(genesis_block_hash=H(gen))
    if ht or how % 2:
        kw['hashtype'] = SIGHASH_Type(ht) if ht else None
    outs = spent_list(coins, how)
    if sp.kind == 'key':
        if how % 2:
            kw['sigversion'] = SIGVERSION_TAPROOT
        return ElementsSignatureHashSchnorr(tx, i, outs, **kw)
    if how % 2:
        return CElementsScript(code).sighash_schnorr(tx, i, outs, **kw)
    lh = CoreElementsParams.tapleaf_hasher(
        bytes([sp.tree.get_script_leaf_version('s')]) + BytesSerializer.serialize(CElementsScript(code)))
    return ElementsSignatureHashSchnorr(
        tx, i, outs, sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=lh, **kw)


def digest(tx, i, coins, ht, sp, j, gen, how=0):
    code = sp.codes[j]
    if sp.kind in ('key', 'leaf'):
        return tap_digest(tx, i, coins, ht, sp, gen, code, how)
    s = CElementsScript(code)
    if sp.kind == 'leg':
        return s.sighash(tx, i, SIGHASH_Type(ht))
    return s.sighash(tx, i, SIGHASH_Type(ht),
                     amount=conf(CConfidentialValue, coins[i]['out']['value'], how % 3),
                     sigversion=SIGVERSION_WITNESS_V0)


def evaluate(tx, i, coins, sp, gen, how=0):
    """What the verifier of input i says of the transaction."""
    coin = coins[i]
    if sp.kind in ('key', 'leaf'):
        st = tx.wit.vtxinwit[i].scriptWitness.stack
        sig = bytes(st[0])
        ht = sig[64] if len(sig) == 65 else 0
        h, exc = outcome(tap_digest, tx, i, coins, ht, sp, gen, sp.codes[0], how)
        if exc:
            return exc
        key = (XOnlyPubKey(H(coin['out']['script'])[2:]) if sp.kind == 'key'
               else sp.signers[0].xonly_pub)
        return observe(key.verify_schnorr, h, sig[:64])
    kw = {} if how % 2 else {'flags': {SCRIPT_VERIFY_P2SH, SCRIPT_VERIFY_WITNESS}}
    wit = tx.wit.vtxinwit
    return verdict(
        VerifyScript, tx.vin[i].scriptSig, CElementsScript(H(coin['out']['script'])), tx, i,
        amount=conf(CConfidentialValue, coin['out']['value'], how % 3),
        witness=wit[i].scriptWitness if i < len(wit) else CScriptWitness([]), **kw)


def verdict(f, *a, **kw):
    try:
        f(*a, **kw)
        return 'T'
    except ValidationError as e:
        return '!' + type(e).__name__


def with_sigs(t, placed):
    t = copy.deepcopy(t)
    for i, (ss, wit) in placed.items():
        t['vin'][i]['script'] = ss.hex()
        t['inwit'][i]['sw'] = [w.hex() for w in wit]
    return t


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    keys = [CCoinKey.from_secret_bytes(bytes(31) + bytes([n])) for n in (1, 2)]
    sps = {f: Spender(f, [keys[0]] * 2 if f not in ('ms', 'wms') else keys) for f in KIND}
    for n, line in enumerate(open(src)):
        c = json.loads(line)
        coins = [{'out': o} for o in c['coins']]
        placed = {}
        for i in range(2):
            sp = sps[c['fl'][i]]
            sigs = [sp.sign(j, H(s['digest']), s['ht']) for j, s in enumerate(c['sigs'][i])]
            placed[i] = sp.place(sigs)
        t = with_sigs(c['tx'], placed)
        tx = mk_tx(t, ROUTES[n % len(ROUTES)])
        got = [[evaluate(x, i, coins, sps[c['fl'][i]], c['gen'], n + d)
                for d, x in enumerate((tx, tx.to_immutable(), tx.to_mutable()))]
               for i in range(2)]
        out.ev({k: c[k] for k in ('fl', 'edits', 'good', 'sigs')})
        for i in range(2):
            if any((r == 'T') != c['good'][i] for r in got[i]):
                res.write(json.dumps(dict(c, got=got, clause='replay-%s-spend' % sps[c['fl'][i]].kind)) + '\n')
                break
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


# -------------------------------------------------------------------- traces
class World:
    def __init__(self, n):
        self.n = n
        nin, nout = G.pick(1, 2, 2, 3), G.pick(0, 1, 2, 2, 3)
        self.t = {'ver': G.ver(), 'lock': G.u32(),
                  'vin': [self.vin() for _ in range(nin)],
                  'vout': [G.vout() for _ in range(nout)], 'inwit': [], 'outwit': []}
        for w in ['inwit'] * nin + ['outwit'] * nout:
            self.t[w].append(self.wit(w))
        self.coins, self.sps, self.funds = [], [], []
        for v in self.t['vin']:
            c, sp = self.coin()
            self.coins.append(c)
            self.sps.append(sp)
            self.funds.append(self.fund(v, c) if G.chance(0.5) else None)
        self.gen = G.h(32)
        self.sigs = [[] for _ in range(nin)]
        self.past = []
        self.live = mk_tx(self.t, ('mut', 'append', 'im2mut', 'gmut')[n % 4])
        self.steps = [{'k': 'start', 'tx': self.t, 'coins': self.show(), 'gen': self.gen}]

    def vin(self):
        return G.vin(coinbase=False, script='')

    def wit(self, k):
        w = getattr(G, k)(G.chance(0.5))
        if k == 'inwit':
            w['sw'] = []
        return w

    def coin(self):
        sp = Spender(G.pick(*KIND), [CCoinKey.from_secret_bytes(G.b(31) + b'\x01') for _ in range(2)])
        return {'out': {'asset': G.casset('ec'), 'value': G.cvalue('ec'),
                        'nonce': G.cnonce('ec'), 'script': sp.spk.hex()}}, sp

    def fund(self, v, c):
        """A transaction with that coin, which input v then spends."""
        k = G.pick(0, 1, 2)
        f = mk_tx({'ver': '02000000', 'lock': '00000000', 'vin': [self.vin()],
                   'vout': [G.vout() for _ in range(k)] + [c['out']] + [G.vout() for _ in range(2 - k)],
                   'inwit': [], 'outwit': []}, ROUTES[self.n % len(ROUTES)])
        v['hash'], v['n'] = f.GetTxid().hex(), struct.pack('<I', k).hex()
        return f, v['hash'], v['n'], c['out']

    def show(self):
        return [{'kind': sp.kind, 'codes': [c.hex() for c in sp.codes], 'out': c['out']}
                for c, sp in zip(self.coins, self.sps)]

    # the living transaction follows
    def follow(self, old, new):
        tx, how = self.live, G.pick(0, 1, 2)
        if old['ver'] != new['ver']:
            tx.nVersion = i32(new['ver'])
        if old['lock'] != new['lock']:
            tx.nLockTime = u32(new['lock'])
        for name, mk, ls in (('vin', mk_in, tx.vin), ('vout', mk_out, tx.vout),
                             ('inwit', mk_inwit, tx.wit.vtxinwit),
                             ('outwit', mk_outwit, tx.wit.vtxoutwit)):
            a, b = old[name], new[name]
            del ls[len(b):]
            for i, e in enumerate(b):
                if i >= len(a):
                    ls.append(mk(e, True, how))
                elif a[i] != e:
                    self.change(name, ls, i, a[i], e, how)

    def change(self, name, ls, i, a, e, how):
        o = ls[i]
        if name == 'vin':
            if (a['hash'], a['n']) != (e['hash'], e['n']):
                if how == 2:
                    o.prevout = CElementsOutPoint(H(e['hash']), u32(e['n']))
                else:
                    o.prevout = CElementsMutableOutPoint(H(a['hash']), u32(a['n']))
                    o.prevout.hash, o.prevout.n = H(e['hash']), u32(e['n'])
            if a['seq'] != e['seq']:
                o.nSequence = u32(e['seq'])
            if a['iss'] != e['iss']:
                o.assetIssuance = mk_iss(e['iss'], how)
            if a['pegin'] != e['pegin']:
                o.is_pegin = e['pegin']
            if a['script'] != e['script']:
                o.scriptSig = CElementsScript(H(e['script']))
        elif name == 'vout':
            if a['value'] != e['value']:
                o.nValue = conf(CConfidentialValue, e['value'], how)
            if a['asset'] != e['asset']:
                o.nAsset = conf(CConfidentialAsset, e['asset'], how)
            if a['nonce'] != e['nonce']:
                o.nNonce = conf(CConfidentialNonce, e['nonce'])
            if a['script'] != e['script']:
                o.scriptPubKey = CElementsScript(H(e['script']))
        elif name == 'inwit':
            if a['ar'] != e['ar']:
                o.issuanceAmountRangeproof = H(e['ar'])
            if a['kr'] != e['kr']:
                o.inflationKeysRangeproof = H(e['kr'])
            if a['pw'] != e['pw']:
                o.pegin_witness = mk_stack(e['pw'])
            if a['sw'] != e['sw']:
                o.scriptWitness = mk_stack(e['sw'])
        elif a != e:
            if how:
                o.surjectionproof, o.rangeproof = H(e['sp']), H(e['rp'])
            else:
                ls[i] = elib.mk_outwit(e, True)

    def sign(self):
        i = G.pick(*range(len(self.coins)))
        sp = self.sps[i]
        pool = [1, 1, 2, 3, 129, 130, 131] + ([0] if sp.kind in ('key', 'leaf') else [])
        hts = [G.pick(*pool) for _ in sp.codes]
        ds = [observe(digest, self.live, i, self.coins, ht, sp, j, self.gen, self.n + len(self.steps))
              for j, ht in enumerate(hts)]
        ok = not any(d[0] == '!' for d in ds)
        self.steps.append({'k': 'sign', 'i': i + 1, 'hts': hts, 'digests': ds})
        if not ok:
            return
        self.sigs[i] = [sp.sign(j, H(d), ht) for j, (d, ht) in enumerate(zip(ds, hts))]
        ss, wit = sp.place(self.sigs[i])
        self.live.vin[i].scriptSig = CElementsScript(ss)
        self.live.wit.vtxinwit[i].scriptWitness = CScriptWitness(wit)

    def look(self):
        tx = self.live
        views = []
        for i, sp in enumerate(self.sps):
            if not self.sigs[i]:
                continue
            how = self.n + len(self.steps) + i
            xs = [tx, tx.to_immutable(), CElementsTransaction.deserialize(tx.serialize())]
            ok = [evaluate(x, i, self.coins, sp, self.gen, how + d) for d, x in enumerate(xs)]
            v = self.t['vin'][i]
            if self.funds[i] and sp.kind in ('leg', 'v0') and \
                    self.funds[i][1:] == (v['hash'], v['n'], self.coins[i]['out']):
                ok += [verdict(VerifySignature, self.funds[i][0], x, i) for x in xs
                       if i < len(x.wit.vtxinwit)]
            views.append({'i': i + 1, 'ok': ok})
        if views:
            t = ab_tx(tx)
            for v in t['vin']:
                v['script'] = ''
            for w in t['inwit']:
                w['sw'] = []
            self.steps.append({'k': 'look', 'tx': t, 'views': views})

    def edit(self):
        old, n = self.t, len(self.coins)
        frm = list(range(1, n + 1))
        if self.past and G.chance(0.25):
            new, coins, sps, gen = self.past.pop()
            if sps != self.sps:
                return
            new = copy.deepcopy(new)
            self.coins, self.gen = coins, gen
            self.follow(old, new)
        else:
            self.past.append((old, list(self.coins), list(self.sps), self.gen))
            new = copy.deepcopy(old)
            if G.chance(0.35):
                self.rearrange(new, frm)
            else:
                self.mutate(new)
                self.follow(old, new)
        self.t = new
        self.steps.append({'k': 'edit', 'tx': new, 'coins': self.show(), 'gen': self.gen, 'from': frm})

    def mutate(self, t):
        i = G.pick(*range(len(t['vin'])))
        o = G.pick(*range(len(t['vout']))) if t['vout'] else None
        what = G.pick('ver', 'lock', 'vin', 'vin', 'vin', 'vout', 'vout', 'vout',
                      'wit', 'wit', 'coin', 'coin', 'gen')
        if what == 'ver':
            t['ver'] = G.ver()
        elif what == 'lock':
            t['lock'] = G.u32()
        elif what == 'gen':
            self.gen = G.h(32)
        elif what == 'vin':
            v, f = t['vin'][i], G.pick('hash', 'n', 'seq', 'iss', 'pegin')
            v[f] = self.vin()[f]
            if v['n'] == 'ffffff3f':
                v['n'] = 'feffff3f'
        elif what == 'vout' and o is not None:
            f = G.pick('asset', 'value', 'nonce', 'script')
            t['vout'][o][f] = G.vout()[f]
        elif what == 'wit':
            if o is not None and G.chance(0.5):
                t['outwit'][o] = self.wit('outwit')
            else:
                t['inwit'][i] = self.wit('inwit')
        elif what == 'coin':
            c = self.coins[i] = copy.deepcopy(self.coins[i])
            f, mk = G.pick(('asset', G.casset), ('value', G.cvalue), ('nonce', G.cnonce))
            c['out'][f] = mk('ec')

    def rearrange(self, t, frm):
        nin, nout, tx = len(t['vin']), len(t['vout']), self.live
        i = G.pick(*range(nin))
        o = G.pick(*range(nout)) if nout else None
        ins = (t['vin'], t['inwit'], self.coins, self.sps, self.sigs, self.funds, frm,
               tx.vin, tx.wit.vtxinwit)
        outs = (t['vout'], t['outwit'], tx.vout, tx.wit.vtxoutwit)
        what = G.pick('addin', 'addout', 'addout', 'dropin', 'dropout', 'swapin', 'swapout')
        if what == 'addin' and nin < 4:
            v, w = self.vin(), self.wit('inwit')
            c, sp = self.coin()
            for ls, e in zip(ins, (v, w, c, sp, [], None, 0, mk_in(v, True), mk_inwit(w, True))):
                ls.append(e)
        elif what == 'addout':
            v, w = G.vout(), self.wit('outwit')
            at = G.pick(*range(nout + 1))
            for ls, e in zip(outs, (v, w, mk_out(v, True), mk_outwit(w, True))):
                ls.insert(at, e)
        elif what == 'dropin' and nin > 1:
            for ls in ins:
                del ls[i]
        elif what == 'dropout' and nout:
            for ls in outs:
                del ls[o]
        elif what == 'swapin' and nin > 1:
            for ls in ins:
                ls[i], ls[(i + 1) % nin] = ls[(i + 1) % nin], ls[i]
        elif what == 'swapout' and nout > 1:
            for ls in outs:
                ls[o], ls[(o + 1) % nout] = ls[(o + 1) % nout], ls[o]


def trace(out):
    for n in range(2500 if THOROUGH else 500):
        if n % 100 == 0:
            setup(('elements', 'elements/liquidv1')[n // 100 % 2])
        w = World(n)
        for _ in range(G.pick(1, 2, 3)):
            w.sign()
        w.look()
        for _ in range(G.pick(2, 4, 6)):
            w.sign() if G.chance(0.25) else w.edit()
            w.look()
        out.ev({'steps': w.steps}, any(s['k'] == 'look' for s in w.steps))


def main():
    setup('elements')
    if sys.argv[1] == 'replay':
        replay(sys.argv[2], sys.argv[3])
        return
    out = Out(sys.argv[2])
    trace(out)
    out.close()


main()
