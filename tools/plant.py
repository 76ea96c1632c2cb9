"""Plants a bug: builds a scratch copy, confirms it, writes seeded/<id>/.

A definition is a Python file with: id, property, needs, breaks, edits
(list of (file, old, new)), demo (Python source).
Usage: plant.py DEF [--nocheck] [checks...]
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = '/verif'
PY = '/opt/venv/bin/python'
ROOT = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'],
                      capture_output=True, text=True).stdout.split()


def original_commits():
    out = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'],
                         capture_output=True, text=True).stdout.splitlines()
    return {l.split()[0] for l in out if not l.split(' ', 1)[1].startswith('fix:')}


def main():
    d = {}
    exec(open(sys.argv[1]).read(), d)
    args = sys.argv[2:]
    ident = d['id']
    work = '/tmp/plant_' + ident
    if os.path.exists(work):
        shutil.rmtree(work)
    shutil.copytree('/repo', work, symlinks=True)
    touched = set()
    orig = original_commits()
    ok_orig = False
    for f, old, new in d['edits']:
        p = os.path.join(work, 'src/reor', f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print('EDIT matches %d times in %s: %r' % (n, f, old[:60]))
            return 1
        open(p, 'w').write(s.replace(old, new))
        touched.add(f)
    diff = subprocess.run(['git', '-C', work, 'diff'], capture_output=True, text=True).stdout
    # a removed line of the original repository?
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
            blame = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', cur],
                                   capture_output=True, text=True).stdout.splitlines()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            ln = int(m.group(1))
            continue
        if cur and l.startswith('-') and not l.startswith('---'):
            h = blame[ln - 1].split()[0].lstrip('^')
            if any(o.startswith(h) for o in orig):
                ok_orig = True
            ln += 1
        elif cur and l.startswith(' '):
            ln += 1
    env = dict(os.environ, PYTHONPATH=work + '/src', OMP_NUM_THREADS='2')
    t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=work, env=env,
                       capture_output=True, text=True)
    tests = t.stdout.strip().splitlines()[-1]
    out = os.path.join(os.environ.get('SEEDED', V + '/seeded'), ident)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(d['demo'])
    open(out + '/demo.sh', 'w').write(
        '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    env2 = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', env=env2, capture_output=True, text=True)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=work, env=env2, capture_output=True, text=True)
    good = ok_orig and t.returncode == 0 and a.returncode == 0 and b.returncode != 0
    print('%s: orig-lines %s | tests %s | demo clean %d patched %d | %s'
          % (ident, ok_orig, tests, a.returncode, b.returncode, 'GOOD' if good else 'BAD'))
    if a.returncode:
        print(a.stderr[-1500:])
    if not good:
        print(b.stderr[-300:])
    if '--nocheck' not in args:
        for c in ([x for x in args if not x.startswith('--')] or [d['property']]):
            e = dict(os.environ, VERIF_DEV_SRC=work + '/src', VERIF_SEED='1', VERIF_TIER='quick')
            r = subprocess.run([PY, 'harness/check.py', c], cwd=V, env=e, capture_output=True, text=True)
            vio = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('   check %s: rc %d %s' % (c, r.returncode, (vio[:1] or [''])[0]), len(vio))
    if '--keep' not in args:
        shutil.rmtree(work)
    if not good:
        shutil.rmtree(out)
    return 0


sys.exit(main())
