"""prof.py CONTRACT INDEX: explore one job, with a profile (development aid)."""
import cProfile, os, pstats, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from dv import harness, load, symharness
from dv.concrete import load_contracts
cp, I = load.load_symbolic()
load_contracts()
c = harness.REGISTRY[sys.argv[1]]
if len(sys.argv) < 3:
    for i, s in enumerate(c.splits or [None]):
        r = symharness.explore(c, cp, I, s, budget_s=60)
        print(i, s, {k: r[k] for k in ('status', 'reason', 'paths', 'obligations', 'discharged', 'solver_s', 'wall_s', 'unsupported')})
        for f in r['failures']:
            print('   ', {k: v for k, v in f.items() if k not in ('path', 'claim')})
    sys.exit()
p = c.splits[int(sys.argv[2])] if c.splits else None
pr = cProfile.Profile()
pr.enable()
r = symharness.explore(c, cp, I, p, budget_s=float(sys.argv[3]) if len(sys.argv) > 3 else 60)
pr.disable()
print({k: v for k, v in r.items() if k not in ('labels', 'failures', 'models')})
for f in r['failures'][:5]:
    print({k: v for k, v in f.items() if k not in ('path', )})
pstats.Stats(pr).sort_stats('tottime').print_stats(18)
