"""Loads /repo/curvepy (and its pure-Python dependencies) into this process."""
import importlib
import os
import sys

REPO = os.environ.get('DV_REPO', '/repo')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'


def load_concrete():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import curvepy
    assert os.path.abspath(curvepy.__file__).startswith(os.path.abspath(REPO) + '/'), curvepy.__file__
    from intervalpy import Interval
    return curvepy, Interval


# methods of Interval without effects, explored on their own and joined (engine.merged)
PURE = ['__gt__', '__ge__']


def load_symbolic():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.append(VENV_SITE)
    import warnings
    warnings.simplefilter('ignore')
    import curvepy
    assert os.path.abspath(curvepy.__file__).startswith(os.path.abspath(REPO) + '/'), curvepy.__file__
    import intervalpy
    import curvepy.util, curvepy.const
    from . import shims, engine, summaries
    for name, m in list(sys.modules.items()):
        if name == 'curvepy' or name.startswith('curvepy.') or name.startswith('intervalpy') or name.startswith('pyduration'):
            shims.inject(m)
            # __del__ only unregisters observers of dead objects; CPython calls it at
            # unpredictable moments of the exploration, so it is dropped
            for v in list(vars(m).values()):
                if isinstance(v, type) and '__del__' in vars(v) and v.__module__ == name:
                    delattr(v, '__del__')
    I = intervalpy.Interval
    for n in PURE:
        setattr(I, n, engine.pure(I.__dict__[n]))
    summaries.install(I)
    return curvepy, I
