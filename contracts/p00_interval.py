"""The contracts of intervalpy used at its call sites (dv/summaries.py), proved of its code."""
from dv.harness import contract
import math

P = 'C17'
BINARY = ('is_superset_of', 'equals', 'intersects', '__lt__', '__le__')


def both(E, name, *args):
    """The installed body against the contract, on the same arguments."""
    I = E.Interval
    O = getattr(I, 'original', None)
    if O is None:
        return None, None
    S = I.summary
    saved = {k: I.__dict__[k] for k in O}
    get = lambda t: t.fget if isinstance(t, property) else t.__func__ if isinstance(t, staticmethod) else t
    for k, v in O.items():
        setattr(I, k, v)
    try:
        real = get(O[name])(*args)
    finally:
        for k, v in saved.items():
            setattr(I, k, v)
    return real, get(S[name])(*args)


@contract(P, 'dep.interval.predicates', functions=['intervalpy.Interval predicates'], splits=BINARY)
def _(E):
    if E.mode != 'symbolic':
        return
    a, b = E.interval('a'), E.interval('b')
    r, s = both(E, E.param, a, b)
    E.check('contract of intervalpy %s' % E.param, E.iff(r, s))


@contract(P, 'dep.interval.contains', functions=['intervalpy.Interval.contains'])
def _(E):
    if E.mode != 'symbolic':
        return
    a = E.interval('a')
    x = E.pick('x.kind', [None, math.inf, -math.inf, 'real'])
    x = E.real('x') if x == 'real' else x
    es, ee = E.pick('es', [True, False]), E.pick('ee', [True, False])
    r, s = both(E, 'contains', a, x, es, ee)
    E.check('contract of intervalpy contains', E.iff(r, s))
    for n in ('is_empty', 'is_negative_infinite', 'is_positive_infinite'):
        r, s = both(E, n, a)
        E.check('contract of intervalpy %s' % n, E.iff(r, s))


@contract(P, 'dep.interval.sets', functions=['intervalpy.Interval.union', 'intervalpy.Interval.intersection'],
          splits=[(n, k) for n in ('union', 'intersection') for k in (0, 1, 2)])
def _(E):
    if E.mode != 'symbolic':
        return
    n, k = E.param
    ds = [E.interval('d%d' % i) for i in range(k)]
    r, s = both(E, n, ds)
    E.check('contract of intervalpy %s' % n, E.same_interval(r, s))


@contract(P, 'dep.interval.sets3', bound='3 intervals', weight=3,
          functions=['intervalpy.Interval.union', 'intervalpy.Interval.intersection'], splits=['union', 'intersection'])
def _(E):
    if E.mode != 'symbolic':
        return
    ds = [E.interval('d%d' % i, kinds=('finite', 'ninf', 'pinf')) for i in range(3)]
    r, s = both(E, E.param, ds)
    E.check('contract of intervalpy %s' % E.param, E.same_interval(r, s))


@contract(P, 'dep.interval.init', functions=['intervalpy.Interval.__init__'])
def _(E):
    if E.mode != 'symbolic':
        return
    s = E.pick('s', ['real', -math.inf, math.inf, None])
    e = E.pick('e', ['real', -math.inf, math.inf, None])
    s = E.real('s') if s == 'real' else s
    e = E.real('e') if e == 'real' else e
    so, eo = E.bool('so'), E.bool('eo')
    I = E.Interval
    real, summ = object.__new__(I), object.__new__(I)
    E.assume(E.not_(E.and_(s is None, e is None, E.not_(so), E.not_(eo))))
    both_init = I.original['__init__']
    saved = {k: I.__dict__[k] for k in I.original}
    for k, v in I.original.items():
        setattr(I, k, v)
    try:
        both_init(real, s, e, so, eo)
    finally:
        for k, v in saved.items():
            setattr(I, k, v)
    I.summary['__init__'](summ, s, e, so, eo)
    E.check('contract of intervalpy construction', E.same_interval(real, summ))
