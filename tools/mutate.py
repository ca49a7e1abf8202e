#!/usr/bin/env python3
"""Mutation survey (development aid): small changes of curvepy that pass the stable tests, and
which of them the checks notice.   mutate.py gen DIR COUNT SEED [FILE...] | mutate.py run DIR"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/curvepy'
PROPS = {
    'points.py': 'C03 C04 C05 C02 C06 C07 C17', 'curve.py': 'C17 C18 C08 C01 C02 C06 C07 C23 C24 C22', 'scan.py': 'C10 C13 C07 C14 C20',
    'accumulator.py': 'C10 C07 C11', 'accumulator_map.py': 'C14 C07', 'aggregate.py': 'C01 C02 C06 C07', 'constant.py': 'C08 C07', 'line.py': 'C08 C07',
    'sin.py': 'C08 C07', 'empty.py': 'C08', 'generic.py': 'C22 C07', 'map.py': 'C22 C07', 'offset.py': 'C09 C07', 'piecewise.py': 'C16 C07',
    'integral.py': 'C11 C07', 'ema.py': 'C12 C07', 'sma.py': 'C13 C07', 'extremas.py': 'C20', 'quotes.py': 'C21', 'trend.py': 'C19',
    'extension/extension.py': 'C15 C07', 'extension/constant.py': 'C15 C07', 'extension/tangent.py': 'C15 C07', 'extension/sin.py': 'C15 C07',
    'util.py': 'C18 C17', 'const.py': 'C19',
}


def span(src, n):
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def mutants(src):
    tree = ast.parse(src)
    b = src.encode()
    out = []

    def rep(n, new, what):
        i, j = span(src, n)
        out.append((i, j, new, what, n.lineno))

    def text(n):
        i, j = span(src, n)
        return b[i:j].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__', '__del__', 'debug'):
            for m in ast.walk(n):
                skip.add(m)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            alt = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
                   ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in']}.get(type(o), [])
            for a in alt:
                rep(n, '%s %s %s' % (text(n.left), a, text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Mod: ['+']}.get(type(n.op), [])
            for a in alt:
                rep(n, '%s %s %s' % (text(n.left), a, text(n.right)), 'binop')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'boolop')
            for k in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + o2.join('(%s)' % text(v) for i, v in enumerate(n.values) if i != k) + ')', 'bool drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, '(%s)' % text(n.operand), 'minus')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            rep(n, repr(n.value + 1), 'number')
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, 'True', 'if True')
            rep(n.test, 'False', 'if False')
        elif isinstance(n, ast.IfExp):
            rep(n, '(%s)' % text(n.body), 'ifexp')
            rep(n, '(%s)' % text(n.orelse), 'ifexp')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, 'pass', 'drop call')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n, ast.stmt):
            if isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name):
                rep(n, 'pass', 'drop assignment')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n, 'return None', 'return')
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, 'pass', 'jump')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    i, j = span(src, k)
                    # with the comma before it
                    m = re.search(rb',\s*$', b[:i])
                    if m:
                        out.append((m.start(), j, '', 'drop keyword', k.lineno if hasattr(k, 'lineno') else n.lineno))
    return out


def gen(d, count, seed, files):
    os.makedirs(d, exist_ok=True)
    rnd = random.Random(seed)
    pool = []
    for f in files or PROPS:
        src = open(os.path.join(PKG, f)).read()
        pool += [(f, src, m) for m in mutants(src)]
    rnd.shuffle(pool)
    print(len(pool), 'possible')
    work = '/tmp/mut_repos'
    shutil.rmtree(work, ignore_errors=True)
    k = 8
    for i in range(k):
        shutil.copytree('/repo', '%s/%d' % (work, i), symlinks=True)
    from concurrent.futures import ThreadPoolExecutor
    import queue
    q = queue.Queue()
    for i in range(k):
        q.put('%s/%d' % (work, i))
    kept = []

    def one(item):
        f, src, (i, j, new, what, line) = item
        if len(kept) >= count:
            return
        b = src.encode()
        t = (b[:i] + new.encode() + b[j:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return
        r = q.get()
        try:
            p = os.path.join(r, 'curvepy', f)
            open(p, 'w').write(t)
            try:
                res = subprocess.run('PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 timeout 40 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -1', shell=True,
                                     cwd=r, capture_output=True, text=True).stdout
            finally:
                open(p, 'w').write(src)
            if re.search(r'\d+ passed', res) and 'failed' not in res and 'error' not in res:
                kept.append({'file': f, 'line': line, 'what': what, 'old': b[i:j].decode(), 'new': new, 'text': t})
        finally:
            q.put(r)
    with ThreadPoolExecutor(k) as ex:
        list(ex.map(one, pool))
    kept = kept[:count]
    json.dump(kept, open(os.path.join(d, 'mutants.json'), 'w'))
    shutil.rmtree(work, ignore_errors=True)
    print(len(kept), 'kept')


def run(d):
    ms = json.load(open(os.path.join(d, 'mutants.json')))
    out = os.path.join(d, 'results.jsonl')
    done = {json.loads(l)['i'] for l in open(out)} if os.path.exists(out) else set()
    for i, m in enumerate(ms):
        if i in done:
            continue
        r = os.path.join(d, 'repo')
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree('/repo', r, symlinks=True)
        open(os.path.join(r, 'curvepy', m['file']), 'w').write(m['text'])
        env = dict(os.environ, DV_REPO=r, DV_FAST='1', VERIF_SEED='1', VERIF_TIER='quick')
        caught = None
        log = []
        t0 = time.time()
        for p in PROPS[m['file']].split():
            c = subprocess.run(['timeout', '600', 'python3-vt', 'check.py', p], cwd=os.environ.get('MUT_VERIF', HERE), env=env, capture_output=True, text=True)
            log.append((p, c.returncode, c.stdout.strip().split('\n')[-1][-200:]))
            if 'VIOLATION' in c.stdout:
                caught = p
                break
        with open(out, 'a') as f:
            f.write(json.dumps({'i': i, 'file': m['file'], 'line': m['line'], 'what': m['what'], 'old': m['old'], 'new': m['new'], 'caught': caught,
                                's': round(time.time() - t0), 'log': log}) + '\n')


if sys.argv[1] == 'gen':
    gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
else:
    run(sys.argv[2])
