"""Decides one property: proof obligations for every contract, replays, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONCRETE_PY = '/opt/venv/bin/python'
WORKERS = int(os.environ.get('DV_WORKERS', str(min(8, os.cpu_count() or 4))))


def limit_memory(gb=4):
    """A path that would not end must not take the machine's memory."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    want = gb << 30
    if soft == resource.RLIM_INFINITY or soft > want:
        resource.setrlimit(resource.RLIMIT_AS, (want, hard))


def _job(args):
    name, idx, budget, keep_models = args
    from . import engine, harness, load, symharness
    c = harness.REGISTRY[name]
    param = c.splits[idx] if c.splits else None
    funcs = set()
    tool = 3
    mon = sys.monitoring
    repo = os.path.abspath(load.REPO) + '/'

    limit_memory()

    def alarm(*a):
        raise engine.Budget()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, budget + 20)

    def start(code, off):
        if code.co_filename.startswith(repo):
            funcs.add('%s:%s' % (os.path.relpath(code.co_filename, repo), code.co_qualname))
        return mon.DISABLE
    try:
        try:
            mon.use_tool_id(tool, 'dv')
        except ValueError:
            pass
        mon.register_callback(tool, mon.events.PY_START, start)
        mon.set_events(tool, mon.events.PY_START)
        mon.restart_events()
        r = symharness.explore(c, _CP, _I, param, budget_s=budget, keep_models=keep_models)
    except BaseException as e:
        r = {'contract': name, 'status': 'engine-error', 'reason': repr(e)[:300],
             'trace': traceback.format_exc()[-2500:], 'paths': 0, 'useful_paths': 0,
             'obligations': 0, 'discharged': 0, 'backends': {}, 'labels': {}, 'failures': [],
             'reach': [], 'queries': 0, 'solver_s': 0.0, 'unknown_branches': 0, 'wall_s': 0,
             'unsupported': [], 'models': []}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        mon.set_events(tool, 0)
        try:
            mon.free_tool_id(tool)
        except Exception:
            pass
    r['param'] = repr(param)
    r['functions'] = sorted(funcs)
    return r


_CP = _I = None


def known_findings():
    path = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return []
    return json.load(open(path))['findings']


def fast_verdict(prop, r):
    """For surveys of planted changes only: stop at the first violation."""
    bad = [f for f in r['failures'] if f.get('draws') is not None][:2]
    for rep in run_batch([{'contract': r['contract'], 'param': r['param'], 'draws': f['draws']} for f in bad]):
        if rep['status'] == 'violation':
            print('VIOLATION property=%s (%s: %s)' % (prop, r['contract'], rep['label']))
            return True
    return False


def decide(prop, tier, seed):
    global _CP, _I
    t0 = time.time()
    quick = tier != 'thorough'
    from . import harness, load
    from .concrete import load_contracts
    search_s = float(os.environ.get('DV_SEARCH_S', '12' if quick else '90'))
    total_budget = float(os.environ.get('DV_BUDGET_S', '420' if quick else '780'))

    # seeded concrete runs of the same contracts, on the unmodified package
    srch = subprocess.Popen([CONCRETE_PY, os.path.join(HERE, 'dv', 'concrete.py'), 'search', prop,
                             str(seed), str(search_s)], stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, cwd=HERE)

    _CP, _I = load.load_symbolic()
    load_contracts()
    cs = [c for c in harness.REGISTRY.values() if c.prop == prop and (not quick or c.tier == 'quick')]
    if not cs:
        print('no contracts for', prop)
        return 2
    jobs = []
    for c in cs:
        for i in range(len(c.splits) if c.splits else 1):
            jobs.append((c.weight, (c.name, i, (150 if quick else 400) , 12)))
    jobs.sort(key=lambda j: -j[0])
    results = []
    ctx = mp.get_context('fork')
    with ctx.Pool(WORKERS, maxtasksperchild=40) as pool:
        handles = [(j, pool.apply_async(_job, (j,))) for _, j in jobs]
        for j, h in handles:
            left = total_budget - (time.time() - t0)
            try:
                results.append(h.get(timeout=max(left, 1)))
                if os.environ.get('DV_FAST') and fast_verdict(prop, results[-1]):
                    pool.terminate()
                    srch.kill()
                    return 1
            except mp.TimeoutError:
                c = harness.REGISTRY[j[0]]
                results.append({'contract': j[0], 'param': repr(c.splits[j[1]] if c.splits else None),
                                'status': 'budget', 'reason': 'check budget exhausted', 'paths': 0,
                                'useful_paths': 0, 'obligations': 1, 'discharged': 0, 'backends': {},
                                'labels': {}, 'failures': [], 'reach': [], 'queries': 0,
                                'solver_s': 0.0, 'unknown_branches': 0, 'wall_s': 0,
                                'unsupported': [], 'functions': [], 'models': []})
        pool.terminate()

    try:
        out, err = srch.communicate(timeout=search_s + 120)
        conc = json.loads(out)
    except Exception as e:
        srch.kill()
        conc = {'runs': 0, 'passed': 0, 'checks': 0, 'distinct': 0, 'violations': [],
                'errors': ['concrete search crashed: %r %s' % (e, (locals().get('err') or '')[-600:])],
                'samples': [], 'discarded': 0, 'wall_s': 0}

    # ---- replay counter-models, and one concrete run for a sample of proved paths --
    items, meta = [], []
    for r in results:
        for f in r['failures']:
            if f.get('draws') is not None:
                items.append({'contract': r['contract'], 'param': r['param'], 'draws': f['draws']})
                meta.append(('failure', r, f))
        for d in r.get('models', []):
            items.append({'contract': r['contract'], 'param': r['param'], 'draws': d})
            meta.append(('path', r, None))
    replays = run_batch(items)
    path_runs = path_agree = 0
    witnesses = []       # (contract, param, label, detail, draws, origin, failure)
    for (kind, r, f), rep in zip(meta, replays):
        if kind == 'path':
            path_runs += 1
            if rep['status'] == 'pass':
                path_agree += 1
        if kind == 'failure':
            f['replay'] = rep['status'] + (': ' + str(rep['label']) if rep['label'] else '')
        if rep['status'] == 'violation':
            witnesses.append((r['contract'], r['param'], rep['label'], rep['detail'], rep['draws'],
                              'counter-model of the prover' if kind == 'failure'
                              else 'model of an explored path', f))
    for v in conc['violations']:
        witnesses.append((v['contract'], v['param'], v['label'], v['detail'], v['draws'],
                          'seeded concrete run (seed %d)' % seed, None))

    # ---- verdict ----------------------------------------------------------------
    findings = [k for k in known_findings() if k['property'] == prop]

    def known(contract, label):
        for k in findings:
            if k['contract'] == contract and k['label'] == label:
                return k
        return None

    printed = set()
    violations = []
    for w in witnesses:
        k = known(w[0], w[2])
        if k:
            if k['what'] not in printed:
                printed.add(k['what'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        violations.append(w)
    refuted = []
    undecided = []
    for r in results:
        for f in r['failures']:
            if known(r['contract'], f['label']):
                continue
            if f['status'] == 'refuted' and not f['abstract'] and not str(f.get('replay', '')).startswith('pass'):
                refuted.append((r, f))
            else:
                undecided.append('%s %s: %s (%s)' % (r['contract'], r['param'], f['label'], f['status']))
        if r['status'] not in ('complete',):
            undecided.append('%s %s: %s %s' % (r['contract'], r['param'], r['status'], r['reason']))

    engine_errors = [r for r in results if r['status'] == 'engine-error']
    obligations = sum(r['obligations'] for r in results)
    discharged = sum(r['discharged'] for r in results)
    wall = time.time() - t0
    exit_code = 0
    nviol = 0
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    if violations:
        seen = set()
        for w in violations:
            if (w[0], w[2]) in seen or len(seen) >= 5:
                continue
            seen.add((w[0], w[2]))
            nviol += 1
            body = {'property': prop, 'contract': w[0], 'param': w[1], 'failed': w[2],
                    'detail': w[3], 'draws': w[4], 'origin': w[5],
                    'obligation': None if not w[6] else w[6].get('claim'),
                    'rerun': './check.py --replay <this file>'}
            path = write_replay(rdir, prop, body)
            print('  contract %s: "%s" fails on the real code (%s) %s' % (w[0], w[2], w[5], w[3] or ''))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        exit_code = 1
    elif refuted:
        r, f = refuted[0]
        nviol = 1
        body = {'property': prop, 'contract': r['contract'], 'param': r['param'],
                'failed obligation': f['label'], 'claim': f.get('claim'), 'path condition': f.get('path'),
                'verifier': f['backend'] + ': sat (obligation refuted)', 'draws': f.get('draws'),
                'replay of the counter-model': f.get('replay'), 'note': 'no failing input found'}
        path = write_replay(rdir, prop, body)
        print('  contract %s: obligation "%s" is refuted' % (r['contract'], f['label']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        exit_code = 1
    elif engine_errors and obligations == 0:
        exit_code = 2
    if obligations == 0 and conc['checks'] == 0:
        print('no obligations were generated')
        exit_code = exit_code or 2

    write_evidence(prop, tier, seed, cs, results, conc, obligations, discharged, undecided,
                   path_runs, path_agree, wall, nviol, engine_errors)
    print('%s: %d contracts, %d jobs, %d obligations, %d discharged, %d paths, %d replays agree of %d, '
          '%d concrete runs, %.1f s' % (prop, len(cs), len(jobs), obligations, discharged,
                                        sum(r['paths'] for r in results), path_agree, path_runs,
                                        conc['runs'], wall))
    for u in undecided[:10]:
        print('  undecided:', u[:300])
    for e in engine_errors[:3]:
        print('  engine error:', e['contract'], e['param'], e['reason'])
        if os.environ.get('DV_DEBUG'):
            print(e.get('trace'))
    for e in conc['errors'][:3]:
        print('  concrete harness error:', e[:600])
    return exit_code


def run_batch(items):
    if not items:
        return []
    try:
        p = subprocess.run([CONCRETE_PY, os.path.join(HERE, 'dv', 'concrete.py'), 'batch'],
                           input=json.dumps(items), capture_output=True, text=True, cwd=HERE, timeout=200)
        return json.loads(p.stdout)['results']
    except Exception as e:
        print('  replay process failed:', repr(e)[-300:])
        return [{'status': 'error', 'label': None, 'detail': None, 'draws': i['draws']} for i in items]


def write_replay(rdir, prop, body):
    s = json.dumps(body, indent=1, default=str)
    h = hashlib.sha1(s.encode()).hexdigest()[:10]
    path = os.path.join(rdir, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        f.write(s + '\n')
    return path


ASSUMPTIONS = [
    'machine floats are treated as mathematical reals (symbolic values are finite; +-inf and None are '
    'enumerated exactly where a contract draws them)',
    'sin, cos, ln, exp, atan2 and non-integer powers are uninterpreted functions with sign axioms only',
    'float literals such as 1e-5 are taken as their decimal value',
    '__del__ methods are dropped (they only unregister observers of dead objects)',
    'set() is replaced by an insertion-ordered set of the same members',
    'symbolic execution of CPython bytecode by proxy objects (dv/) and z3/cvc5 are trusted',
    'intervalpy is executed as installed, not assumed; pyduration, numpy and arrow are external',
    'callbacks given to the code are deterministic and do not re-enter it',
]

# Of contracts over series of symbolic length (dv/seq.py)
SERIES_ASSUMPTIONS = [
    'series of symbolic length: the order facts and the schemas instantiated for them (dv/seq.py) are trusted; len() and list() in '
    'curvepy.points are replaced by versions that know such series',
    'loops over them are cut at the invariants given in contracts/: the loop is rewritten mechanically from the current source on every '
    'run (establish, havoc the assigned variables, run the body once, preserve); loops that leave a prefix of the list they scan '
    'unchanged are checked syntactically not to write it',
]


def write_evidence(prop, tier, seed, cs, results, conc, obligations, discharged, undecided,
                   path_runs, path_agree, wall, nviol, engine_errors):
    trusted = ASSUMPTIONS + (SERIES_ASSUMPTIONS if any(c.name.startswith('series.') for c in cs) else [])
    funcs = set()
    backends = {}
    per = {}
    for r in results:
        funcs.update(r['functions'])
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
        e = per.setdefault(r['contract'], {'paths': 0, 'obligations': 0, 'discharged': 0,
                                           'solver_s': 0.0, 'labels': {}, 'jobs': 0, 'status': {}})
        e['jobs'] += 1
        e['paths'] += r['paths']
        e['obligations'] += r['obligations']
        e['discharged'] += r['discharged']
        e['solver_s'] = round(e['solver_s'] + r['solver_s'], 3)
        e['status'][r['status']] = e['status'].get(r['status'], 0) + 1
        for l, (t, d) in r['labels'].items():
            x = e['labels'].setdefault(l, [0, 0])
            x[0] += t
            x[1] += d
    for c in cs:
        if c.name in per:
            per[c.name]['bound'] = c.bound or 'none (all inputs of the contract)'
    unb = [c.name for c in cs if not c.bound]
    bnd = [c.name for c in cs if c.bound]
    ob_u = sum(r['obligations'] for r in results if r['contract'] in unb)
    di_u = sum(r['discharged'] for r in results if r['contract'] in unb)
    ob_b = sum(r['obligations'] for r in results if r['contract'] in bnd)
    di_b = sum(r['discharged'] for r in results if r['contract'] in bnd)
    excluded = {}
    for r in results:
        for k, v in r.get('excluded', {}).items():
            e = excluded.setdefault(r['contract'], {})
            e[k] = e.get(k, 0) + v
    vacuous = [k for k, v in per.items() if v['obligations'] == 0]
    level = manifest_level(prop)
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'unbounded': {'contracts': len(unb), 'obligations': ob_u, 'discharged': di_u},
        'bounded_stand_ins': {'contracts': len(bnd), 'obligations': ob_b, 'discharged': di_b,
                              'bounds': {c.name: c.bound for c in cs if c.bound},
                              'note': 'sizes enumerated up to the bound, contents symbolic; not counted as proved'},
        'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
        'trusted_base': trusted,
        'backends': backends,
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'solver_queries': sum(r['queries'] for r in results),
        'paths': sum(r['paths'] for r in results),
        'functions_under_contract': sorted(funcs),
        'contracts': per,
        'vacuous_contracts': vacuous,
        'undecided': undecided[:40],
        'excluded_paths': excluded,
        'engine_errors': [e['reason'] for e in engine_errors][:5],
        'paths_replayed_on_cpython': path_runs, 'paths_agreeing': path_agree,
        'evaluations': conc['runs'], 'distinct_nontrivial': conc['distinct'],
        'rule': 'seeded random runs of the same contracts on the unmodified package under /opt/venv; '
                'non-trivial = at least one postcondition was evaluated; distinct by drawn inputs',
        'concrete_postconditions_evaluated': conc['checks'],
        'concrete_discarded': conc['discarded'],
        'samples': conc['samples'] or [{'contract': r['contract'], 'param': r['param'],
                                        'labels': sorted(r['labels'])} for r in results[:3]],
        'explanation': 'contract obligations generated by symbolic execution of the current source and '
                       'discharged by z3/cvc5; bounded contracts are stand-ins',
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': level, 'coverage': cov, 'assumptions': trusted, 'wall_s': round(wall, 2),
          'violations': nviol}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'other'


def replay(path):
    body = json.load(open(path))
    if not body.get('draws'):
        print('no input to replay; obligation:', body.get('failed obligation'))
        return 1
    r = run_batch([{'contract': body['contract'], 'param': body['param'], 'draws': body['draws']}])[0]
    print(r['status'], r['label'], r['detail'])
    return 1 if r['status'] == 'violation' else 0
