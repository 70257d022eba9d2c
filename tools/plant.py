"""Helper to plant bugs: plant(id, property, edits, demo, needs, breaks) checks a change in a scratch copy of /repo
(demo passes without it, fails with it, tests still pass) and keeps it as seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/plant_repo'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD"
work="$(mktemp -d)" || exit 3
export MPLCONFIGDIR="$work"
cd "$work" || exit 3
/opt/venv/bin/python "$here/demo.py"
rc=$?
cd / && rm -rf "$work"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def fresh():
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)
    shutil.copytree('/repo', SCRATCH, ignore=shutil.ignore_patterns('__pycache__'))


def demo_ok(folder, repo):
    r = sh(['bash', os.path.join(folder, 'demo.sh')], cwd=repo, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def tests_ok(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONPATH=repo)
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', 'tests'], cwd=repo, env=env)
    return '9 passed' in r.stdout and 'failed' not in r.stdout, r.stdout[-300:]


def check(prop, repo):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1')
    r = sh([sys.executable, os.path.join(HERE, 'run_check.py'), prop], cwd=HERE, env=env)
    return r.returncode, r.stdout


def plant(ident, prop, edits, demo, needs, breaks, others=()):
    fresh()
    for f, old, new in edits:
        p = os.path.join(SCRATCH, f)
        s = open(p, encoding='utf-8', newline='').read()
        if s.count(old) != 1:
            print(ident, 'EDIT matches', s.count(old), 'times:', old[:60]); return
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
    diff = sh(['git', 'diff'], cwd=SCRATCH).stdout
    folder = os.path.join(HERE, 'seeded', ident)
    os.makedirs(folder, exist_ok=True)
    open(os.path.join(folder, 'patch.diff'), 'w', encoding='utf-8').write(diff)
    open(os.path.join(folder, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(folder, 'demo.py'), 'w', encoding='utf-8').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(folder, 'meta.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
    a, ta = demo_ok(folder, '/repo')
    b, tb = demo_ok(folder, SCRATCH)
    t, tt = tests_ok(SCRATCH)
    blame = ''
    good = a == 0 and b != 0 and t
    if not good:
        print(ident, 'NOT KEPT clean=%s patched=%s tests=%s' % (a, b, t), ta if a else '', tb if b == 0 else '', '' if t else tt)
        shutil.rmtree(folder)
        return
    rc, out = check(prop, SCRATCH)
    got = 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc
    print(ident, prop, got, '' if rc == 1 else out[-600:])
    shutil.rmtree(SCRATCH)


def recheck(ident):
    fresh()
    folder = os.path.join(HERE, 'seeded', ident)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    r = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=SCRATCH)
    if r.returncode:
        print(ident, 'does not apply', r.stderr); return
    rc, out = check(meta['property'], SCRATCH)
    print(ident, meta['property'], 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc)
    shutil.rmtree(SCRATCH)


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        recheck(i)
