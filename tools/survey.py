"""survey.py CONTRACT...: explore all jobs of contracts in parallel, in brief (development aid)."""
import os, sys, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from dv import harness, load, symharness
from dv.concrete import load_contracts
cp, I = load.load_symbolic()
load_contracts()


def job(a):
    n, i, b = a
    c = harness.REGISTRY[n]
    try:
        return a, symharness.explore(c, cp, I, c.splits[i] if c.splits else None, budget_s=b)
    except BaseException as e:
        import traceback
        return a, {'status': 'error', 'reason': traceback.format_exc()[-800:], 'obligations': 0, 'discharged': 0, 'wall_s': 0, 'paths': 0, 'failures': []}


b = float(os.environ.get('B', '60'))
jobs = [(n, i, b) for n in sys.argv[1:] for i in range(len(harness.REGISTRY[n].splits or [None]))]
tot = [0, 0, 0.0]
with mp.get_context('fork').Pool(8) as pool:
    for (n, i, _), r in pool.imap_unordered(job, jobs):
        tot[0] += r['obligations']; tot[1] += r['discharged']; tot[2] += r['wall_s']
        if r['status'] != 'complete' or r['obligations'] != r['discharged'] or os.environ.get('V'):
            print(n, i, (harness.REGISTRY[n].splits or [None])[i], r['status'], str(r['reason'])[-300:], r['paths'], r['obligations'], r['discharged'], r['wall_s'])
            for f in r['failures'][:3]:
                print('    ', f['label'], f['status'], str(f.get('draws'))[:300], f.get('detail'))
print('jobs', len(jobs), 'obligations', tot[0], 'discharged', tot[1], 'cpu', round(tot[2]))
