"""Replay behaviours printed by TLC from WireMC into the code and ConfMC (C01 C02 C03 C04 C22)."""
import json
import struct
import sys

from elib import *  # noqa
from elib import Out, observe, outcome, norm, pad
import elib

what, src, dst = sys.argv[1:4]
setup('elements')
out = Out(dst + '.all')
res = open(dst, 'w')


def check(c, n):
    t = c['tx']
    b = bytes.fromhex(c['ser'])
    if what == 'parse':
        tx, exc = outcome(CElementsTransaction.deserialize, b)
        if exc:
            return 'replay-rejects-valid'
        if norm(see_tx(tx)) != norm(t):
            return 'replay-decoded-fields'
        if observe(tx.serialize) != c['ser']:
            return 'replay-reencoding'
        return None
    tx, exc = outcome(mk_tx, t, elib.ROUTES[n % len(elib.ROUTES)])
    if exc:
        return 'replay-construction'
    if what == 'ser':
        if observe(tx.serialize) != c['ser']:
            return 'replay-encoding'
        if pad(see_tx(tx)) != pad(t):
            return 'replay-fields'
    elif what == 'id':
        if observe(tx.GetTxid) != c['txid']:
            return 'replay-txid'
        if observe(tx.GetHash) != c['full']:
            return 'replay-full-hash'
    elif what == 'vsize':
        if outcome(tx.get_virtual_size)[0] != c['vsize']:
            return 'replay-virtual-size'
    return None


def check_conf(c, n):
    from d_wire import CONF, CAsset, conf_event, conf_open
    kind, raw = c['kind'], bytes.fromhex(c['raw'])

    def plain(_):
        if kind == 'asset':
            return CAsset(raw[1:]) if n % 2 else raw
        return struct.unpack('>q', raw[1:])[0] if n % 2 else raw
    e = conf_event(kind, raw, plain if c['how'] == 'plain' else
                   (bytes, bytearray)[n % 2])
    if not c['made']:
        return None if e['res'] == '!ValueError' else 'replay-wrong-length'
    if e['res'] != 'ok' or e['raw2'] != c['raw'] or e['ser'] != c['ser']:
        return 'replay-field-encoding'
    for f in ('null', 'expl', 'comm', 'valid'):
        if e[f] != 'FT'[c[f]]:
            return 'replay-field-class'
    o, exc = outcome(CONF[kind].deserialize, bytes.fromhex(c['ser']))
    if c['read'] != (not exc):
        return 'replay-field-read'
    if c['valid'] and (exc or observe(lambda: o.commitment) != c['raw']
                       or observe(lambda: o == CONF[kind](raw)) != 'T'):
        return 'replay-field-travels'
    if c['expl'] and kind != 'nonce' and \
            observe(conf_open, kind, o) != c['raw'][2:]:
        return 'replay-explicit-content'
    return None


for n, line in enumerate(open(src)):
    c = json.loads(line)
    clause = (check_conf if what == 'conf' else check)(c, n)
    out.ev(c)
    if clause:
        res.write(json.dumps(dict(c, clause=clause,
                                  route=elib.ROUTES[n % len(elib.ROUTES)])) + '\n')
out.close()
with open(dst + '.stats', 'w') as f:
    f.write(open(dst + '.all.stats').read())
