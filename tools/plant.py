#!/usr/bin/env python3
"""Confirms planted changes: plant.py make SPEC.py | verify ID... | check ID [CHECK...]   (development tool; no check reads it)

A SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run with cwd /repo)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEEDED = os.path.join(HERE, 'seeded')
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; run with cwd = the repository
export PYTHONPATH="$PWD/src/python" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def git(*a):
    r = sh('git', '-C', REPO, *a)
    assert r.returncode == 0, (a, r.stderr)
    return r.stdout


def make(path):
    s = runpy.run_path(path)
    d = os.path.join(SEEDED, s['ID'])
    os.makedirs(d, exist_ok=True)
    assert not git('status', '--porcelain').strip()
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(tmp, f)
            if not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy(os.path.join(REPO, f), p)
            t = open(p).read()
            assert t.count(old) == 1, (s['ID'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        out = ''
        for f in sorted({e[0] for e in s['EDITS']}):
            shutil.copy(os.path.join(tmp, f), os.path.join(REPO, f))
        out = git('diff')
    finally:
        git('checkout', '--', '.')
        shutil.rmtree(tmp)
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return s['ID']


def demo(i):
    d = tempfile.mkdtemp(prefix='demo_')
    try:
        for f in os.listdir(os.path.join(SEEDED, i)):
            if f not in ('patch.diff', 'meta.json'):
                shutil.copy(os.path.join(SEEDED, i, f), d)
        return sh('bash', os.path.join(d, 'demo.sh'), cwd=REPO)
    finally:
        shutil.rmtree(d)


class Applied:
    def __init__(self, i):
        self.i = i

    def __enter__(self):
        assert not git('status', '--porcelain').strip()
        git('apply', os.path.join(SEEDED, self.i, 'patch.diff'))

    def __exit__(self, *a):
        git('checkout', '--', '.')


def original_lines(i):
    """how many of the lines the patch removes are those of the original repository"""
    base = git('rev-list', '--max-parents=0', 'HEAD').split()[0]
    f, n, own, orig, at = None, 0, 0, 0, 0
    for l in open(os.path.join(SEEDED, i, 'patch.diff')).read().splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            blame = [b.split()[0].lstrip('^') for b in git('blame', '-s', '-l', 'HEAD', '--', f).splitlines()]
        elif l.startswith('@@'):
            at = int(l.split()[1][1:].split(',')[0]) - 1
        elif l.startswith('-') and not l.startswith('---'):
            if base.startswith(blame[at][:12]):
                orig += 1
            else:
                own += 1
            at += 1
        elif l.startswith(' '):
            at += 1
    return orig, own


def verify(i):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = demo(i)
    ok = r.returncode == 0
    msg = [f'clean={r.returncode}'] + ([] if ok else [r.stdout[-800:] + r.stderr[-1500:]])
    with Applied(i):
        b = sh('bash', '/opt/vp/build.sh')
        ok &= b.returncode == 0
        sh('bash', '/opt/vp/test.sh', '/tmp/plant_o.json')
        bad = stable - set(json.load(open('/tmp/plant_o.json'))['passed'])
        ok &= not bad
        r = demo(i)
        ok &= r.returncode not in (0, 124)
        msg += [f'build={b.returncode}', f'tests_lost={sorted(bad)[:3]}', f'patched={r.returncode}', (r.stdout + r.stderr).strip().splitlines()[-1:]]
    print('OK ' if ok else 'BAD', i, 'original/own lines removed', original_lines(i), *msg, flush=True)
    return ok


def check(i, which):
    meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    which = which or [meta['property']]
    if which == ['all']:
        which = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
    with Applied(i):
        res = {}
        for c in which:
            r = sh('python3', 'check.py', c, '--tier', 'quick', cwd=HERE, env={**os.environ, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res[c] = (r.returncode, len(v))
            if r.returncode not in (0, 1):
                print(r.stdout[-2000:], r.stderr[-2000:])
    print(i, meta['property'], 'CAUGHT' if res.get(meta['property'], (0,))[0] == 1 else 'MISSED', res, flush=True)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        for p in args:
            i = make(p)
            verify(i)
    elif cmd == 'verify':
        for i in args or sorted(os.listdir(SEEDED)):
            verify(i)
    elif cmd == 'check':
        check(args[0], args[1:])
    elif cmd == 'checks':
        for i in args or sorted(os.listdir(SEEDED)):
            check(i, [])
