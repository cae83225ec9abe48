#!/usr/bin/env python3
"""Run the check of one property:  run.py C01 [--tier quick|thorough]

Exit 0: the property held on everything explored.  Exit 1 with VIOLATION lines
otherwise.  Exit 2: the machinery itself failed.
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

JOBS = 8
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TLAJARS = ['/opt/veriftools/tla/tla2tools.jar',
           '/opt/veriftools/tla/CommunityModules-deps.jar']
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable

sys.path.insert(0, HARNESS)
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402


class Broken(Exception):
    """The machinery (not the code under test) failed."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace', **kw)
    return r.returncode, r.stdout


def digest(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def install(tmp, dst):
    """Move a freshly built directory into place; harmless if we lose a race."""
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    try:
        os.rename(tmp, dst)
    except OSError:
        if not os.path.isdir(dst):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def build_java():
    src = os.path.join(SPEC, 'java', 'Prims.java')
    dst = os.path.join(VERIF, 'build', 'java-' + digest(src))
    if os.path.exists(os.path.join(dst, 'Prims.class')):
        return dst
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, 'build'))
    rc, out = sh(['javac', '-cp', TLAJARS[0], '-d', tmp, src])
    if rc:
        raise Broken('javac failed:\n' + out)
    return install(tmp, dst)


def build_zkp():
    """The ideal crypto library; returns the path of the shared object."""
    src = os.path.join(VERIF, 'zkp', 'ideal_zkp.c')
    if not os.path.exists(src):
        return ''
    dst = os.path.join(VERIF, 'build', 'zkp-' + digest(
        src, os.path.join(VERIF, 'zkp', 'build.sh')))
    so = os.path.join(dst, 'libideal_zkp.so')
    if os.path.exists(so):
        return so
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, 'build'))
    rc, out = sh(['bash', os.path.join(VERIF, 'zkp', 'build.sh'), tmp])
    if rc:
        raise Broken('building the ideal library failed:\n' + out)
    install(tmp, dst)
    return so


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.java = build_java()
        self.zkp = build_zkp()
        self.states = self.transitions = 0
        self.validated = self.nontrivial = 0
        self.samples = []
        self.stages = []
        self.fails = []      # dicts: clause, event, stage

    # ------------------------------------------------------------ helpers
    def env(self, **extra):
        e = dict(os.environ)
        e.update(PYTHONPATH=REPO + ':' + HARNESS, PYTHONDONTWRITEBYTECODE='1',
                 PYTHONPYCACHEPREFIX=os.path.join(self.scratch, 'pyc'),
                 PYTHONHASHSEED='0', VERIF_SEED=str(self.seed),
                 VERIF_TIER=self.tier, VERIF_ZKP=self.zkp,
                 VERIF_SCRATCH=self.scratch)
        e.update(extra)
        return e

    def tlc(self, module, cfg, extra_env=None, args=(), timeout=None):
        md = tempfile.mkdtemp(dir=self.scratch)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx12g',
               '-cp', ':'.join([self.java] + TLAJARS), 'tlc2.TLC',
               '-noGenerateSpecTE', '-workers', '8', '-metadir', md,
               '-config', cfg] + list(args) + [module + '.tla']
        rc, out = sh(cmd, cwd=SPEC, env=self.env(**(extra_env or {})),
                     timeout=timeout)
        shutil.rmtree(md, ignore_errors=True)
        with open(os.path.join(self.scratch, module + '.tlc.txt'), 'w') as f:
            f.write(out)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found',
                       out)
        gen, dist = map(int, m[-1]) if m else (0, 0)
        return rc, out, gen, dist

    def driver(self, script, args):
        cmd = [PY, os.path.join(HARNESS, script)] + list(args)
        rc, out = sh(cmd, env=self.env(), cwd=self.scratch)
        if rc:
            tail = '\n'.join(out.splitlines()[-25:])
            if rc < 0:
                self.fails.append(dict(
                    clause='crash', stage=script,
                    event={'what': 'the process running the code under test '
                           'was ended by signal %s' % signal.Signals(-rc).name,
                           'output': tail}))
                return False
            if '@CODE-UNDER-TEST-RAISED' in out:
                self.fails.append(dict(
                    clause='unexpected-exception', stage=script,
                    event={'what': 'the code under test raised where the '
                           'specification has a defined result',
                           'output': tail}))
                return False
            if '@OBSERVATION-UNINTERPRETABLE' in out:
                self.fails.append(dict(
                    clause='uninterpretable-observation', stage=script,
                    event={'what': 'the code under test gave something outside '
                           'the domain of the specification',
                           'output': tail}))
                return False
            raise Broken('driver %s %s failed (%d):\n%s'
                         % (script, args, rc, tail))
        return True

    def stats(self, path):
        with open(path + '.stats') as f:
            s = json.load(f)
        self.nontrivial += s.get('distinct_nontrivial', 0)
        self.samples += s.get('samples', [])[:3]
        return s

    # ------------------------------------------------------------- stages
    def model(self, module, cfg=None, cfg_thorough=None, replay=None,
              args=(), args_thorough=None, distinct=None):
        """Check a specification; optionally replay what it prints."""
        c = (cfg_thorough if self.tier == 'thorough' and cfg_thorough
             else cfg) or module + '.cfg'
        if self.tier == 'thorough' and args_thorough is not None:
            args = args_thorough
        args = [a.replace('@SEED', str(self.seed)) for a in args]
        rc, out, gen, dist = self.tlc(module, c, args=args)
        sim = '-simulate' in args
        cases = sorted(set(json.loads('"' + s + '"') for s in
                           re.findall(r'^"@C (.*)"$', out, re.M)))
        # lines every replay needs
        tables = sorted(set(json.loads('"' + s + '"') for s in
                            re.findall(r'^"@A (.*)"$', out, re.M)))
        if rc != 0 or (not sim and 'No error has been found' not in out):
            raise Broken('TLC rejected the specification %s:\n%s' % (
                module, '\n'.join(x for x in out.splitlines()
                                  if not x.startswith('"@'))[-6000:]))
        if sim:
            m = re.search(r'generated (\d+) (?:states|traces)|'
                          r'(\d+) states (?:generated|checked)', out)
            m2 = re.findall(r'(\d+) states checked', out)
            gen = int(m2[-1]) if m2 else (int(m.group(1) or m.group(2))
                                          if m else 0)
            dist = len(cases)
        if distinct is not None and dist != distinct:
            raise Broken('%s: %d distinct states, %d expected'
                         % (module, dist, distinct))
        self.states += dist
        self.transitions += gen
        st = dict(stage='model ' + module, cfg=c, states=dist,
                  transitions=gen, exhaustive=not sim, behaviours=len(cases))
        if replay:
            if not cases:
                raise Broken(module + ' printed no behaviours to replay')
            st['replayed'] = 0
            parts = []
            for k in range(min(JOBS, len(cases))):
                p = os.path.join(self.scratch, '%s-%d.cases' % (module, k))
                with open(p, 'w') as f:
                    f.write('\n'.join(tables + cases[k::JOBS]) + '\n')
                parts.append(p)
            with ThreadPoolExecutor(JOBS) as ex:
                oks = list(ex.map(lambda p: self.driver(
                    replay[0], list(replay[1]) + [p, p + '.res']), parts))
            for p, ok in zip(parts, oks):
                if not ok:
                    continue
                s = self.stats(p + '.res')
                st['replayed'] += s['events']
                if not s['events']:
                    raise Broken('nothing was replayed')
                self.validated += s['events']
                for line in open(p + '.res'):
                    d = json.loads(line)
                    self.fails.append(dict(clause=d['clause'],
                                           event=d, stage='replay ' + module))
        self.stages.append(st)

    def trace(self, driver, args, module, cfg='Trace.cfg', steps=False):
        """Record what the code does and judge the record with TLC."""
        p = os.path.join(self.scratch, '%s-%d.ndjson' % (module, len(self.stages)))
        if not self.driver(driver, list(args) + [p]):
            return
        s = self.stats(p)
        if not s['events']:
            raise Broken('driver recorded nothing')
        rc, out, gen, dist = self.tlc(module, cfg, {'TRACE': p})
        bad = re.findall(r'^"@F (\d+) (.*)"$', out, re.M)
        if rc != 0 or 'No error has been found' not in out:
            if not re.search(r'Attempted to |evaluating the nested', out) \
                    or re.search(r'OutOfMemory|StackOverflow', out):
                raise Broken('TLC failed on the trace:\n' + out[-6000:])
            # an observation that has no place in the specification
            self.fails.append(dict(
                clause='uninterpretable-observation', stage='trace ' + module,
                event={'what': 'TLC cannot evaluate the recorded trace',
                       'output': out[-3000:]}))
            return
        # a history contributes one state per step (plus its initial one)
        want = s['events']
        if steps:
            want += sum(len(json.loads(x)['steps']) for x in open(p))
        if dist != want:
            raise Broken('TLC judged %d of %d events' % (dist, want))
        self.states += dist
        self.transitions += gen
        self.validated += s['events']
        self.stages.append(dict(stage='trace ' + module, events=s['events'],
                                states=dist))
        if bad:
            lines = open(p).read().splitlines()
            for l, clause in sorted(bad, key=lambda x: int(x[0])):
                self.fails.append(dict(clause=clause, stage='trace ' + module,
                                       event=json.loads(lines[int(l) - 1])))

    # ------------------------------------------------------------- finish
    def known(self):
        p = os.path.join(VERIF, 'known-findings.jsonl')
        r = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith(('#', 'fixed:')):
                    d = json.loads(line)
                    if d['property'] == self.pid:
                        r.append(d)
        return r

    def finish(self, chk):
        known = self.known()
        hit = {}
        new = []
        for f in self.fails:
            for k in known:
                if k['clause'] == f['clause'] and all(
                        f['event'].get(a) == b for a, b in k['event'].items()):
                    hit[json.dumps(k, sort_keys=True)] = k
                    break
            else:
                new.append(f)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        out = os.path.join(VERIF, 'out')
        os.makedirs(out, exist_ok=True)
        by = {}
        for f in new:
            by.setdefault(f['clause'], []).append(f)
        n = 0
        for clause, fs in sorted(by.items()):
            n += 1
            fs.sort(key=lambda f: len(json.dumps(f['event'])))
            path = os.path.join(out, '%s-%d.json' % (self.pid, n))
            with open(path, 'w') as fh:
                json.dump(dict(property=self.pid, clause=clause,
                               count=len(fs), stage=fs[0]['stage'],
                               tier=self.tier, seed=self.seed,
                               event=fs[0]['event'],
                               more=[f['event'] for f in fs[1:4]]),
                          fh, indent=1)
            print('%s: clause "%s" broken by %d event(s)'
                  % (self.pid, clause, len(fs)))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   evaluations=self.validated,
                   distinct_nontrivial=self.nontrivial,
                   rule=chk['rule'], samples=self.samples[:6],
                   stages=self.stages)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=chk['level'], coverage=cov,
                  assumptions=chk.get('assumptions', []),
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d states, %d events/behaviours checked against the '
              'implementation, %d violation(s), %.1fs'
              % (self.pid, self.tier, self.states, self.validated, len(new),
                 time.time() - self.t0))
        return 1 if new else 0


def time_calls(run):
    for n in ('tlc', 'driver'):
        def wrap(f, n=n):
            def g(*a, **kw):
                t = time.time()
                r = f(*a, **kw)
                print('  %s %s: %.1fs' % (n, a[0], time.time() - t))
                return r
            return g
        setattr(run, n, wrap(getattr(run, n)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.pid == 'setup':
        build_java()
        build_zkp()
        return 0
    chk = CHECKS[a.pid]
    run = None
    try:
        run = Run(a.pid, a.tier)
        os.environ.get('VERIF_TIMES') and time_calls(run)
        chk['stages'](run)
        return run.finish(chk)
    except Broken as e:
        print('BROKEN %s: %s' % (a.pid, e))
        if run and run.fails:
            return run.finish(chk)
        return 2
    finally:
        if run:
            if a.keep:
                print('scratch:', run.scratch)
            else:
                shutil.rmtree(run.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
