#!/usr/bin/env python3
"""Mutation trials: how many small changes of the code the checks notice.

mutate.py list                     all mutants (id, file:line, change)
mutate.py run LOG [N [SKIP]]       try N mutants in a seeded order

A mutant that passes the stable tests is given to the checks of the part of
the code it is in, until one of them reports it.  Survivors are to be looked
at by hand: many change nothing that can be observed.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['core/__init__.py', 'core/script.py', 'core/secp256k1.py', 'wallet.py',
         'blech32.py', 'liquid_addr.py', '__init__.py']
# (file, name prefix of the outermost definition) -> checks, cheapest first
MAP = [
    ('core/__init__.py', 'Blinding', 'C24'), ('core/__init__.py', 'Unblinding', 'C24 C16'),
    ('core/__init__.py', 'CoreElementsParams', 'C23 C13 C14 C08'),
    ('core/__init__.py', 'CConfidential', 'C27 C29 C28 C03 C02 C01'),
    ('core/__init__.py', 'CAssetIssuance', 'C27 C29 C28 C02 C01 C05'),
    ('core/__init__.py', 'CAsset', 'C03 C09 C28 C27 C16'),
    ('core/__init__.py', 'CElements', 'C27 C29 C28 C05 C03 C02 C01 C04 C22 C06 C18'),
    ('core/__init__.py', 'blind_transaction', 'C15 C14 C18 C17 C31 C32'),
    ('core/__init__.py', 'generate_asset_entropy', 'C09 C18'),
    ('core/__init__.py', 'calculate', 'C09 C18'),
    ('core/__init__.py', 'unblind', 'C16 C17 C31 C32'),
    ('core/__init__.py', 'derive', 'C20'),
    ('core/__init__.py', 'generate', 'C14 C17 C18 C15 C31 C32'),
    ('core/__init__.py', '', 'C14 C16 C18 C17 C15 C31 C32'),
    ('core/script.py', 'Raw', 'C07 C06 C30'),
    ('core/script.py', 'ElementsSignatureHashSchnorr', 'C08 C30'),
    ('core/script.py', 'Taproot', 'C23'),
    ('core/script.py', '', 'C26 C19 C20 C07 C06 C08 C23'),
    ('core/secp256k1.py', '', 'C21 C31 C16 C14 C33'),
    ('wallet.py', '', 'C12 C10 C22 C13'),
    ('blech32.py', '', 'C11 C12 C10'), ('liquid_addr.py', '', 'C11 C12'),
    ('__init__.py', '', 'C21 C13 C12'),
]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}


def offsets(src):
    o, r = 0, [0]
    for ln in src.splitlines(True):
        o += len(ln.encode())
        r.append(o)
    return r


def mutants():
    res = []
    for f in FILES:
        path = os.path.join(REPO, 'elementstx', f)
        src = open(path).read()
        b = src.encode()
        offs = offsets(src)
        tree = ast.parse(src)

        def span(n):
            return (offs[n.lineno - 1] + n.col_offset,
                    offs[n.end_lineno - 1] + n.end_col_offset)

        def add(n, new, top, what):
            s, e = span(n)
            res.append(dict(file=f, s=s, e=e, new=new, line=n.lineno, top=top,
                            what='%s: %s -> %s' % (
                                what, b[s:e].decode()[:60].replace('\n', ' '),
                                new[:60].replace('\n', ' '))))

        def text(n):
            s, e = span(n)
            return b[s:e].decode()

        def walk(n, top, quiet):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if n.name in ('__repr__', '__str__', '_repr_or_str',
                              '_set_zkp_func_types'):
                    return
                for c in n.body:
                    walk(c, top or n.name, quiet)
                return
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)) and \
                    getattr(n, 'value', None) is None:
                return
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id in (
                        '__all__', '__slots__') for t in n.targets):
                return
            if isinstance(n, ast.Raise):
                add(n, 'pass', top, 'no-raise')
                return
            if isinstance(n, ast.Assert):
                return
            if isinstance(n, ast.Expr):
                if isinstance(n.value, ast.Constant):
                    return
                add(n, 'pass', top, 'no-call')
            if isinstance(n, (ast.Assign, ast.AugAssign)) and top and \
                    isinstance(getattr(n, 'targets', [getattr(n, 'target', None)])[0],
                               (ast.Attribute, ast.Subscript)):
                add(n, 'pass', top, 'no-assign')
            if isinstance(n, ast.AugAssign):
                add(n, text(n).replace('+=', '-=', 1) if '+=' in text(n)
                    else 'pass', top, 'aug')
            if isinstance(n, ast.Continue):
                add(n, 'pass', top, 'no-continue')
            if isinstance(n, ast.If):
                add(n.test, '(False and (%s))' % text(n.test), top, 'if-false')
                add(n.test, '(True or (%s))' % text(n.test), top, 'if-true')
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                add(n, '%s %s %s' % (text(n.left), CMP[type(n.ops[0])],
                                     text(n.comparators[0])), top, 'cmp')
            if isinstance(n, ast.BoolOp):
                for k in range(len(n.values)):
                    rest = [text(v) for j, v in enumerate(n.values) if j != k]
                    op = ' and ' if isinstance(n.op, ast.And) else ' or '
                    add(n, '(' + op.join('(%s)' % x for x in rest) + ')', top,
                        'drop-operand')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, '(%s)' % text(n.operand), top, 'no-not')
            if isinstance(n, ast.BinOp):
                t = {ast.Add: '-', ast.Sub: '+', ast.BitAnd: '|', ast.BitOr: '&',
                     ast.Mult: '+', ast.LShift: '>>', ast.RShift: '<<'}.get(type(n.op))
                if t and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                    add(n, '(%s %s %s)' % (text(n.left), t, text(n.right)), top, 'op')
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    add(n, str(not v), top, 'const')
                elif isinstance(v, int):
                    add(n, str(v + 1), top, 'const')
                    if v:
                        add(n, str(v - 1), top, 'const')
                elif isinstance(v, bytes) and v:
                    add(n, repr(bytes([v[0] ^ 1]) + v[1:]), top, 'const')
                return
            if isinstance(n, ast.Call):
                if len(n.args) >= 2:
                    a = [text(x) for x in n.args]
                    for k in range(len(a) - 1):
                        s, _ = span(n.args[k])
                        _, e = span(n.args[k + 1])
                        if a[k] != a[k + 1]:
                            res.append(dict(
                                file=f, s=s, e=e, new=a[k + 1] + ', ' + a[k],
                                line=n.lineno, top=top, what='swap-args: '
                                + text(n)[:80].replace('\n', ' ')))
                for kw in n.keywords:
                    walk(kw.value, top, quiet)
                if isinstance(n.func, ast.Name) and n.func.id == 'ensure_isinstance':
                    return
                for a in [n.func] + n.args:
                    walk(a, top, quiet)
                return
            if isinstance(n, ast.Return) and n.value is not None and \
                    not isinstance(n.value, ast.Constant):
                add(n.value, 'None', top, 'return-none')
            if isinstance(n, ast.Slice):
                for k in ('lower', 'upper'):
                    x = getattr(n, k)
                    if x is not None and not isinstance(x, ast.Constant):
                        add(x, '(%s) + 1' % text(x), top, 'slice')
            if isinstance(n, (ast.JoinedStr,)):
                return
            for c in ast.iter_child_nodes(n):
                if isinstance(n, ast.AnnAssign) and c is n.annotation:
                    continue
                if isinstance(n, (ast.arguments,)):
                    continue
                walk(c, top, quiet)
        for n in tree.body:
            walk(n, None, False)
    for i, m in enumerate(res):
        m['id'] = i
    return res


def checks_for(m):
    for f, pre, cs in MAP:
        if m['file'] == f and (m['top'] or '').startswith(pre):
            return cs.split()
    return []


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace', **kw)
    return r.returncode, r.stdout


def one(m):
    w = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = os.path.join(w, 'repo')
        shutil.copytree(REPO, repo, symlinks=True)
        p = os.path.join(repo, 'elementstx', m['file'])
        b = open(p, 'rb').read()
        b = b[:m['s']] + m['new'].encode() + b[m['e']:]
        try:
            ast.parse(b.decode())
        except SyntaxError:
            return 'syntax', ''
        open(p, 'wb').write(b)
        for n in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + n).read().replace('/repo', repo)
            open(os.path.join(w, n), 'w').write(s)
        o = os.path.join(w, 'o.json')
        try:
            sh(['bash', os.path.join(w, 'test.sh'), o], timeout=100)
            passed = json.load(open(o)).get('passed') or []
        except Exception:
            return 'tests', ''
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        if any(t not in passed for t in base):
            return 'tests', ''
        for c in checks_for(m):
            try:
                rc, out = sh(['python3', os.path.join(V, 'run.py'), c], cwd=V,
                             env=dict(os.environ, VERIF_REPO=repo), timeout=900)
            except subprocess.TimeoutExpired:
                return 'TIMEOUT', c
            if rc == 1:
                return 'caught', c
            if rc:
                return 'BROKEN', c + ' ' + out[-600:]
        return 'SURVIVED', ' '.join(checks_for(m))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ms = mutants()
    if sys.argv[1] == 'list':
        for m in ms:
            print(m['id'], '%s:%d' % (m['file'], m['line']), m['top'], m['what'])
        return
    if sys.argv[1] == 'ids':
        for i in sys.argv[2:]:
            m = ms[int(i)]
            print(i, '%s:%d' % (m['file'], m['line']), m['what'], one(m), flush=True)
        return
    log, n = sys.argv[2], int(sys.argv[3])
    skip = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    order = list(ms)
    random.Random(7).shuffle(order)
    for m in order[skip:skip + n]:
        r, c = one(m)
        with open(log, 'a') as f:
            f.write('%-8s %s %d %s:%d [%s] %s\n' % (
                r, c, m['id'], m['file'], m['line'], m['top'], m['what']))


main()
