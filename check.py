#!/usr/bin/env python3-vt
"""check.py PROPERTY          decide a property on /repo's current tree
check.py --replay FILE      re-run a recorded counterexample on the real code"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if __name__ == '__main__':
    from dv import runner
    if sys.argv[1] == '--replay':
        sys.exit(runner.replay(sys.argv[2]))
    sys.exit(runner.decide(sys.argv[1], os.environ.get('VERIF_TIER', 'quick'),
                           int(os.environ.get('VERIF_SEED', '1'))))
