"""Selection of the secp256k1 library, each history in a process of its own.

d_handle.py trace OUT | d_handle.py replay CASES RES
"""
import ctypes.util
import shutil
import sys
import tempfile
import threading
import traceback

from elib import *  # noqa
from elementstx import set_custom_secp256k1_path, get_custom_secp256k1_path
from elementstx.core.secp256k1 import get_secp256k1
from elementstx.core import (
    BlindingInputDescriptor, blind_transaction, unblind_confidential_pair
)
import bitcointx
from bitcointx.core.key import CKey

LIBS = os.path.dirname(os.environ['VERIF_ZKP'])
FILES = {'plain': 'libplain.so', 'narrow': 'libnarrow.so',
         'part': 'libpartial.so', 'z0': 'libideal_zkp.so',
         'z1': 'libideal_zkp1.so'}
# the search for the default library takes long and is the same every time
_found = ctypes.util.find_library('secp256k1')
ctypes.util.find_library = lambda name: _found if name == 'secp256k1' else None

# a well-formed proof of the ideal library (exponent 3)
PROOF = (b'RP' + bytes([4, 52]) + bytes(8) + bytes(8) + bytes(32)
         + bytes(2) + bytes(64))


class Proc:
    """The operations, in a forked child."""

    def __init__(self, root):
        self.root = root
        self.first = None
        self.serial = 0

    def at(self, n):
        return os.path.join(self.root, n) if n else ''

    def put(self, n, k):
        p = self.at(n)
        if os.path.isdir(p) and not os.path.islink(p):
            os.rmdir(p)
        elif os.path.lexists(p):
            os.unlink(p)
        if k == 'dir':
            os.mkdir(p)
        elif k == 'junk':
            with open(p, 'wb') as f:
                f.write(b'not a library')
        elif k != 'none':
            # a file of its own: the loader tells files apart by identity
            self.serial += 1
            own = os.path.join(self.root, 'lib-%d.so' % self.serial)
            shutil.copyfile(os.path.join(LIBS, FILES[k]), own)
            os.rename(own, p)
        return 'ok'

    def set(self, n):
        return observe(lambda: set_custom_secp256k1_path(n)
                       if not isinstance(n, str)
                       else set_custom_secp256k1_path(self.at(n)) or 'ok')

    def path(self):
        p = get_custom_secp256k1_path()
        if p is None:
            return ''
        if not isinstance(p, str):
            return '?' + repr(p)
        d, n = os.path.split(p)
        return n if d == self.root else '?' + p

    def use(self):
        r = {'zkp': False, 'schnorr': False, 'same': True}
        try:
            h = get_secp256k1()
        except Exception as e:
            return dict(r, out='!' + type(e).__name__)
        if self.first is None:
            self.first = (h, h.lib)
        return {'out': 'ok', 'zkp': h.cap.has_zkp is True,
                'schnorr': h.cap.has_schnorrsig is True,
                'same': h.lib is self.first[1] and h.cap == self.first[0].cap}

    def info(self):
        try:
            r = CElementsTxOutWitness(b'', PROOF).get_rangeproof_info()
        except Exception as e:
            return '!' + type(e).__name__
        try:
            if self.first is None:
                h = get_secp256k1()
                self.first = (h, h.lib)
            return 'z%d' % (r.exp - 3)
        except Exception:
            return '?' + repr(r)

    def crypto(self):
        """Blind a transaction."""
        tx = CElementsMutableTransaction(
            [CElementsMutableTxIn(CElementsMutableOutPoint(b'\x01' * 32, 0))],
            [CElementsMutableTxOut(CConfidentialValue(5), CElementsScript(b'\x51'),
                                   CConfidentialAsset(CAsset(b'\x02' * 32)))])
        before = tx.serialize()
        d = BlindingInputDescriptor(
            asset=CAsset(b'\x02' * 32), amount=5,
            blinding_factor=Uint256(b'\x01' * 32),
            asset_blinding_factor=Uint256(b'\x03' * 32))
        k = CKey(b'\x05' * 32)
        try:
            r = blind_transaction(tx, input_descriptors=[d],
                                  output_pubkeys=[k.pub])
            out = 'ok' if r.ok else 'fail'
        except Exception as e:
            out = '!' + type(e).__name__
        same = tx.serialize() == before
        if out == 'ok':
            u = unblind_confidential_pair(
                blinding_key=k, confValue=tx.vout[0].nValue,
                confAsset=tx.vout[0].nAsset, confNonce=tx.vout[0].nNonce,
                committedScript=tx.vout[0].scriptPubKey,
                rangeproof=tx.wit.vtxoutwit[0].rangeproof)
            if not u.ok or u.amount != 5:
                out = 'not unblinded'
        if self.first is None and not out.startswith('!'):
            h = get_secp256k1()
            self.first = (h, h.lib)
        return out, same

    def step(self, e):
        r = {'op': e['op'], 'n': e.get('n') or '', 'kind': e.get('kind', ''),
             'files': {}, 'out': 'ok', 'zkp': False, 'schnorr': False,
             'same': True}
        if e['op'] == 'files':
            r['files'] = e['files']
            for n, k in e['files'].items():
                self.put(n, k)
        elif e['op'] == 'put':
            self.put(e['n'], e['kind'])
        elif e['op'] == 'set':
            r['out'] = self.set(e['n'])
            if not isinstance(e['n'], str):
                r['n'] = ''
        elif e['op'] == 'base':
            # another setting, of the package this one builds on
            r['out'] = observe(lambda: bitcointx.set_custom_secp256k1_path(
                self.at(e['n'])) or 'ok')
        elif e['op'] == 'use':
            r.update(self.use())
        elif e['op'] == 'info':
            r['out'] = self.info()
        elif e['op'] == 'crypto':
            r['out'], r['same'] = self.crypto()
        r['path'] = self.path()
        return r


def run_history(ops):
    """Execute in a child; returns the observed steps."""
    root = tempfile.mkdtemp(prefix='handle-', dir=os.environ['VERIF_SCRATCH'])
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(rd)
        try:
            p = Proc(root)
            # some stand where the libraries are, some above, some elsewhere
            os.chdir((root, os.path.dirname(root), '/')[len(ops) % 3])
            got = []
            for e in ops:
                if e.get('thread'):
                    box = []

                    def work():
                        select_chain_params('elements')
                        box.append(p.step(e))
                    t = threading.Thread(target=work)
                    t.start()
                    t.join()
                    got += box
                else:
                    got.append(p.step(e))
            data = json.dumps(got).encode()
        except BaseException as x:
            data = json.dumps('driver: ' + traceback.format_exc()
                              + blame(x)).encode()
        while data:
            data = data[os.write(wr, data):]
        os._exit(0)
    os.close(wr)
    data = b''
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        data += b
    os.close(rd)
    os.waitpid(pid, 0)
    shutil.rmtree(root)
    if not data:
        return None      # the child died
    got = json.loads(data)
    if isinstance(got, str):
        raise RuntimeError(got)
    return got


def random_history(r):
    kinds = ['none', 'dir', 'junk', 'plain', 'narrow', 'z0', 'z1']
    names = ['a', 'b', 'c', 'p']
    files = {n: r.choice(kinds) for n in names}
    files['p'] = 'part'        # never replaced: the loader keeps it mapped
    ops = [{'op': 'files', 'files': dict(files)}]
    for _ in range(r.choice((3, 5, 8, 12))):
        o = r.choice(('set', 'set', 'set', 'put', 'use', 'info', 'crypto',
                      'base'))
        e = {'op': o}
        if o == 'base':
            e['n'] = r.choice(names)
        elif o == 'set':
            e['n'] = r.choice(names + names + ['', None, b'', 3.5])
        elif o == 'put':
            e['n'], e['kind'] = r.choice('abc'), r.choice(kinds)
        elif r.random() < 0.2:
            e['thread'] = True
        ops.append(e)
    return ops


DEAD = {'op': 'use', 'n': '', 'kind': '', 'files': {}, 'out': '!dead',
        'zkp': False, 'schnorr': False, 'same': False, 'path': '?'}


def trace(path):
    out = Out(path)
    r = random.Random(SEED)
    for _ in range(4000 if THOROUGH else 600):
        ops = random_history(r)
        got = run_history(ops)
        if got is None:
            got = [DEAD]
        out.ev({'steps': got}, any(e['op'] in ('use', 'info', 'crypto')
                                   for e in got))
    out.close()


def replay(src, dst):
    out = Out(dst + '.all')
    res = open(dst, 'w')
    for line in open(src):
        c = json.loads(line)
        ops = [{'op': e['op'], 'n': e['n'], 'kind': e['k'],
                'files': e['files']} for e in c]
        got = run_history(ops)
        bad = set()
        if got is None:
            bad.add('process-died')
        for e, g in zip(c, got or []):
            if g['path'] != e['path']:
                bad.add('path-in-force')
            o, w = g['out'], e['out']
            if e['op'] == 'set' and (o == 'ok') != (w == 'ok'):
                bad.add('setting-the-path')
            if e['op'] == 'use':
                if o.startswith('!') != (w == 'raised'):
                    bad.add('library-loads')
                elif w != 'raised' and (g['zkp'] != w.startswith('z')
                                        or g['schnorr'] != (w != 'narrow')):
                    bad.add('capabilities-of-loaded-library')
                elif not g['same']:
                    bad.add('library-replaced')
            if e['op'] == 'info' and not (
                    o == w or (w == 'unavailable' and o == '!RuntimeError')
                    or (w == 'raised' and o.startswith('!'))):
                bad.add('inspection-of-range-proof')
        out.ev(c)
        for b in bad:
            res.write(json.dumps({'case': c, 'got': got,
                                  'clause': 'replay-' + b}) + '\n')
    out.close()
    with open(dst + '.stats', 'w') as f:
        f.write(open(dst + '.all.stats').read())


if __name__ == '__main__':
    setup('elements')
    CKey(b'\x05' * 32).pub       # the base package has its library
    if sys.argv[1] == 'replay':
        replay(*sys.argv[2:4])
    else:
        trace(sys.argv[2])
