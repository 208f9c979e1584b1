#!/usr/bin/env python3
"""Plant a bug in a scratch copy of /repo and confirm it.

    from seed import seed; seed(id, prop, [(file, old, new)...], demo_source, needs, breaks)

writes seeded/<id>/ when the change builds, passes the stable tests, and the demonstration passes
without it and fails with it; then runs the property's quick check against the changed copy.
`seed.py run ID...` runs the checks again against kept changes.
"""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = 'import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport pyTMD\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy(name):
    w = f'/tmp/sw_{name}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    sh('git checkout -q -- .', cwd=w)
    return w


def tests(w, tag):
    out = f'/tmp/sw_{tag}.json'
    t = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {w}')
    f = f'/tmp/sw_{tag}.sh'
    open(f, 'w').write(t)
    sh(f'PYTHONPATH={w} bash {f} {out}')
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    missing = stable - set(json.load(open(out))['passed'])
    for x in (f, out):
        os.remove(x)
    return sorted(missing)


def check(prop, w, extra=''):
    t = time.time()
    rc, out = sh(f'./check {prop} {extra}', cwd=VERIF, env={'VERIF_REPO': w, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
    v = [l for l in out.splitlines() if l.startswith('VIOLATION')] if rc == 1 else []
    return rc, v, round(time.time()-t), out


def seed(id, prop, edits, demo, needs, breaks, run=None):
    w = copy(id)
    try:
        for f, a, b in edits:
            p = f'{w}/pyTMD/{f}'
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        _, diff = sh('git diff', cwd=w)
        d = f'/tmp/seed_{id}'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/demo.py', 'w').write(HEAD + demo)
        open(f'{d}/demo.sh', 'w').write(DEMO)
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
        rc, out = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
        if rc:
            print(id, 'DEMO FAILS ON UNCHANGED', out[-800:]); return
        rc, out = sh(f'bash {d}/demo.sh', cwd=w, timeout=300)
        if not rc:
            print(id, 'DEMO PASSES WITH CHANGE'); return
        miss = tests(w, id)
        if miss:
            print(id, 'TESTS FAIL', miss[:4]); return
        shutil.rmtree(f'{VERIF}/seeded/{id}', ignore_errors=True)
        shutil.copytree(d, f'{VERIF}/seeded/{id}')
        shutil.rmtree(d)
        for p in (run or [prop]):
            rc, v, t, out = check(p, w)
            print(id, p, 'rc', rc, f'{t}s', (v or ['-- MISSED'])[0][:150] if rc in (0, 1) else out[-600:], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__' and sys.argv[1:2] == ['run']:
    for id in sys.argv[2:] or sorted(os.listdir(f'{VERIF}/seeded')):
        m = json.load(open(f'{VERIF}/seeded/{id}/meta.json'))
        w = copy(id)
        try:
            rc, out = sh(f'git apply {VERIF}/seeded/{id}/patch.diff', cwd=w)
            if rc:
                print(id, 'does not apply', out); continue
            rc, v, t, out = check(m['property'], w)
            print(id, m['property'], 'rc', rc, f'{t}s', (v or ['-- MISSED'])[0][:150], flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
