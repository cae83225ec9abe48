#!/usr/bin/env python3
"""Confirm planted bugs: plant.py [--no-check] [--checks C01,C02] ID...

For each seeded/<ID>: in a scratch copy of /repo, the demo passes before and
fails after the patch, it builds, the stable tests pass, and report which
checks (by default that of its property) catch it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace', **kw)
    return r.returncode, r.stdout


def one(i, checks):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(w, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        dd = os.path.join(w, 'demo')
        shutil.copytree(d, dd)
        for f in ('patch.diff', 'meta.json'):
            os.unlink(os.path.join(dd, f))
        for n in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + n).read().replace('/repo', repo)
            open(os.path.join(w, n), 'w').write(s)
        env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        demo = lambda: sh(['bash', os.path.join(dd, 'demo.sh')], cwd=repo, env=env)  # noqa
        rc, out = demo()
        if rc:
            return 'BAD demo fails on unchanged tree\n' + out
        rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo)
        if rc:
            return 'BAD patch does not apply\n' + out
        rc, out = sh(['bash', os.path.join(w, 'build.sh')])
        if rc:
            return 'BAD build\n' + out
        rc, out = sh(['bash', os.path.join(w, 'test.sh'), os.path.join(w, 'o.json')])
        o = json.load(open(os.path.join(w, 'o.json')))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = o.get('passed') or o.get('pass') or []
        miss = [t for t in base if t not in passed]
        if miss:
            return 'BAD tests fail: %s %s' % (miss, list(o))
        rc, out = demo()
        if not rc:
            return 'BAD demo passes with the patch\n' + out
        r = 'ok;'
        for c in checks or [meta['property']]:
            e = dict(os.environ, VERIF_REPO=repo)
            p = '%s/run.py' % V
            rc, out = sh(['python3', p, c], cwd=V, env=e)
            cl = [x.split('"')[1] for x in out.splitlines() if 'clause "' in x]
            r += ' %s:%s' % (c, {0: 'MISSED', 1: 'caught ' + ','.join(cl)}.get(
                rc, 'BROKEN ' + out[-1500:]))
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    a = sys.argv[1:]
    checks = None
    if '--no-check' in a:
        a.remove('--no-check')
        checks = ['__none__']
    if '--checks' in a:
        k = a.index('--checks')
        checks = a[k + 1].split(',')
        del a[k:k + 2]
    if checks == ['__none__']:
        checks = []
    ids = a or sorted(os.listdir(os.path.join(V, 'seeded')))
    for i in ids:
        print(i, one(i, checks), flush=True)


main()
