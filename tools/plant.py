#!/usr/bin/env python3
"""plant.py [ID ...]: writes /verif/seeded/<id>/ from tools/bugs.py and confirms each planted bug in a scratch copy
(demo passes on the unchanged tree and fails with the patch; the tests pass with the patch) and runs its property's check."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from bugs import BUGS
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
DEMO_SH = '''#!/bin/bash
# run with cwd at the repository after the build
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    e = dict(ENV, **kw)
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(b):
    d = os.path.join(HERE, 'seeded', b['id'])
    w = '/tmp/plant-%s' % b['id']
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    msg = []
    for f, old, new in b['edits']:
        p = os.path.join(w, f)
        s = open(p).read()
        n = s.count(old)
        k = b.get('nth', {}).get(old)
        if n == 0 or (n > 1 and k is None):
            shutil.rmtree(w)
            return '%s: pattern occurs %d times: %r' % (b['id'], n, old)
        if n > 1:
            i = -1
            for _ in range(k):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        else:
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh('git diff', w).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write('import numpy as np\nimport magpie\nimport magpie.densegrid\nimport magpie.montecarlo\n' + b['demo'].strip('\n') + '\n')
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    clean = sh('bash %s/demo.sh' % d, '/repo')
    if clean.returncode:
        msg.append('DEMO FAILS CLEAN: ' + clean.stdout[-300:])
    fortran = any(f.endswith('.f90') for f, _, _ in b['edits'])
    if not fortran:
        bad = sh('bash %s/demo.sh' % d, w)
        if bad.returncode == 0:
            msg.append('DEMO PASSES PATCHED')
        elif 'AssertionError' not in bad.stdout:
            msg.append('(demo fails with ' + bad.stdout.strip().split('\n')[-1][:100] + ')')
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests', w, PYTHONPATH=w)
        if ' failed' in t.stdout or 'error' in t.stdout.split('\n')[-2]:
            base = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests', '/repo', PYTHONPATH='/repo')
            if base.stdout.split('\n')[-2].split(' in ')[0] != t.stdout.split('\n')[-2].split(' in ')[0]:
                msg.append('TESTS: ' + t.stdout.strip().split('\n')[-1])
    for f, old, new in b['edits']:
        cur = open(os.path.join('/repo', f)).read().split('\n')
        new_ = open(os.path.join(w, f)).read().split('\n')
        import difflib
        bl = sh('git blame -s -- %s' % f, '/repo').stdout.split('\n')
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, cur, new_, autojunk=False).get_opcodes():
            if tag != 'equal':
                own = [k + 1 for k in range(i1, i2) if not bl[k].lstrip('^').startswith('1537f94')]
                if own:
                    msg.append('OWN LINES %s' % own)
                if tag == 'insert':
                    msg.append('(pure insertion)')
    hits = []
    for pid in b.get('checks', [b['property']]):
        c = sh('python3 check.py %s' % pid, HERE, VERIF_REPO=w)
        hits.append('%s=%s' % (pid, {0: 'MISSED', 1: 'caught'}.get(c.returncode, 'exit %d' % c.returncode)))
        if c.returncode == 1:
            first = [x for x in c.stdout.split('\n') if x.startswith('  ')][:1]
            hits.append(first[0].strip()[:110] if first else '')
    sh('git checkout -q .', w)
    shutil.rmtree(w)
    return '%-26s %s %s' % (b['id'], ' '.join(hits), ' | '.join(msg))


if __name__ == '__main__':
    ids = sys.argv[1:]
    from concurrent.futures import ThreadPoolExecutor
    sel = [b for b in BUGS if not ids or b['id'] in ids or b['property'] in ids]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, sel):
            print(r, flush=True)
