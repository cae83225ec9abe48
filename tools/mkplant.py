#!/usr/bin/env python3
"""Helper to write seeded/<id>/ from (old, new) replacements; see plants.py."""
import json
import os
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0: the property held.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here"
exec /opt/venv/bin/python "$here/demo.py"
'''


def plant(i, prop, edits, needs, breaks, demo, files=None):
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in edits:
        p = os.path.join(w, 'r', 'elementstx', f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s: %s' % (i, s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    subprocess.check_call(['rm', '-rf', w])
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    for n, content in (files or {}).items():
        open(os.path.join(d, n), 'w').write(content)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
