#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py, after checking each one:
applies, builds, passes the stable tests, demo 0 without and non-zero with the patch, and says whether the
property's check catches it.   seedgen.py [ID ...] [--nocheck]"""
import importlib.util
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, file, old, new, needs, breaks, demo, count=1):
    assert id not in SEEDS
    SEEDS[id] = dict(prop=prop, edits=[(file, old, new)] if isinstance(file, str) else file,
                     needs=needs, breaks=breaks, demo=demo)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'pass', 'tests'):
        if isinstance(b, dict) and k in b:
            return b[k]
    return b


def make(id, s, check):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    try:
        before = sh('bash %s/demo.sh' % d, cwd='/repo')
        for f, old, new in s['edits']:
            p = '/repo/curvepy/' + f
            t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        after = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seed_o.json')
        tail = t.stdout.strip().split('\n')[-1]
        import re
        ok = before.returncode == 0 and after.returncode != 0 and b.returncode == 0
        res = 'demo %d/%d build %d tests "%s"' % (before.returncode, after.returncode, b.returncode, tail[-90:])
        if before.returncode:
            res += before.stderr[-300:]
        if 'failed' in t.stdout.split('\n')[-2] or 'failed' in tail:
            res += '\n' + '\n'.join(l for l in t.stdout.split('\n') if l.startswith('FAILED'))[:500]
        if check:
            import time
            t0 = time.time()
            c = sh('VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s' % s['prop'], cwd=HERE)
            v = [l for l in c.stdout.split('\n') if 'VIOLATION' in l]
            f = [l for l in c.stdout.split('\n') if l.startswith('  contract') or 'undecided' in l]
            res += '\n   check exit %d %.0fs %s %s' % (c.returncode, time.time() - t0, v[:1], [x[:160] for x in f[:2]])
        print('%s [%s]: %s' % (id, s['prop'], res), flush=True)
    finally:
        sh('git -C /repo checkout -- .')


def main():
    sd = os.path.join(HERE, 'tools', 'seeds')
    for f in sorted(os.listdir(sd)):
        if f.endswith('.py'):
            g = {'seed': seed}
            exec(compile(open(os.path.join(sd, f)).read(), f, 'exec'), g)
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for id, s in SEEDS.items():
        if not args or any(id.startswith(a) for a in args):
            make(id, s, '--nocheck' not in sys.argv)


main()
