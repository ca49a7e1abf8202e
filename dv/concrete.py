"""Runs contracts on the unmodified package under the project's own interpreter.

  concrete.py search PROPERTY SEED SECONDS     seeded random inputs
  concrete.py batch                            stdin: JSON list of {contract, param, draws}
Both print one JSON object.
"""
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from dv import harness, load          # noqa: E402


def load_contracts():
    d = os.path.join(HERE, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('contracts.' + f[:-3])


RUN_CPU_S = 8          # a run takes milliseconds


class Hang(BaseException):
    pass


def _hang(*a):
    raise Hang()


def run_one(cp, Interval, c, param, draws=None, rng=None):
    """-> (status, label, detail, draws used)"""
    signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU_S)
    try:
        return _run_one(cp, Interval, c, param, draws, rng)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _run_one(cp, Interval, c, param, draws, rng):
    E = harness.ConcE(cp, Interval, draws=draws, rng=rng, param=param)
    try:
        c.fn(E)
    except harness.Discard:
        return ('discard' if not E.checks else 'pass'), None, None, E
    except harness.Violation as v:
        return 'violation', v.label, v.detail, E
    except Hang as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [t for t in tb if load.REPO in t.filename]
        if inside:
            return ('violation', 'does not end', 'no result after %d s of processor time, in %s:%s'
                    % (RUN_CPU_S, inside[-1].filename, inside[-1].name), E)
        return 'error', 'Hang', str(tb[-1]), E
    except RecursionError as e:
        return 'violation', 'unexpected RecursionError', str(e)[:200], E
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # an exception the contract did not expect, raised by the code under contract
        inside = [t for t in tb if '/contracts/' not in t.filename and '/dv/' not in t.filename]
        if inside:
            return ('violation', 'unexpected %s' % type(e).__name__,
                    '%s at %s:%s' % (e, inside[-1].filename, inside[-1].lineno), E)
        return 'error', type(e).__name__, '%s %s' % (e, tb[-1]), E
    return 'pass', None, None, E


def search(prop, seed, seconds):
    cp, Interval = load.load_concrete()
    load_contracts()
    cs = [c for c in harness.REGISTRY.values() if c.prop == prop]
    jobs = [(c, p) for c in cs for p in (c.splits or [None])]
    rng = random.Random(seed)
    t0 = time.time()
    n = passed = discarded = 0
    checks = hangs = 0
    viol = []
    errors = []
    seen_labels = set()
    distinct = set()
    samples = []
    while time.time() - t0 < seconds and jobs:
        for c, p in jobs:
            if time.time() - t0 > seconds or hangs > 1:
                break
            for _ in range(4):
                n += 1
                st, label, detail, E = run_one(cp, Interval, c, p, rng=random.Random(rng.random()))
                checks += E.checks
                if st == 'pass':
                    passed += 1
                    if E.checks:
                        distinct.add(hash((c.name, repr(p), repr(E.drawn))))
                        if len(samples) < 3 and rng.random() < 0.05:
                            samples.append({'contract': c.name, 'param': repr(p), 'draws': E.drawn})
                elif st == 'discard':
                    discarded += 1
                elif st == 'violation':
                    k = (c.name, label)
                    hangs += label == 'does not end'
                    if k not in seen_labels and len(viol) < 20:
                        seen_labels.add(k)
                        viol.append({'contract': c.name, 'param': repr(p), 'label': label,
                                     'detail': detail, 'draws': E.drawn})
                else:
                    errors.append('%s %r: %s %s' % (c.name, p, label, detail))
        if len(viol) >= 20 or len(errors) > 20 or hangs:
            break
    return {'runs': n, 'passed': passed, 'discarded': discarded, 'checks': checks,
            'distinct': len(distinct), 'violations': viol, 'errors': errors[:5],
            'samples': samples, 'wall_s': round(time.time() - t0, 2)}


def batch(items):
    cp, Interval = load.load_concrete()
    load_contracts()
    out = []
    hangs = 0
    for it in items:
        if hangs > 3:
            out.append({'status': 'error', 'label': 'skipped', 'detail': None, 'draws': it['draws']})
            continue
        c = harness.REGISTRY[it['contract']]
        param = find_param(c, it['param'])
        st, label, detail, E = run_one(cp, Interval, c, param, draws=it['draws'],
                                       rng=random.Random(1))
        hangs += label in ('does not end', 'Hang')
        out.append({'status': st, 'label': label, 'detail': detail, 'draws': E.drawn})
    return {'results': out}


def find_param(c, rep):
    for p in (c.splits or [None]):
        if repr(p) == rep:
            return p
    raise Exception('no parameter %s of %s' % (rep, c.name))


def main():
    # the code under test may print
    real = sys.stdout
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    sys.stdout = open(os.devnull, 'w')
    if sys.argv[1] == 'search':
        r = search(sys.argv[2], int(sys.argv[3]), float(sys.argv[4]))
    else:
        r = batch(json.load(sys.stdin))
    json.dump(r, real, default=str)
    real.flush()


if __name__ == '__main__':
    main()
