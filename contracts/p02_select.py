from dv.harness import contract
from .common import abs_curve, same_set

P = 'C02'
FNS = ['Curve.min', 'Curve.max', 'Curve.first', 'Aggregate.y', 'Aggregate.get_domain']


def cover(E, ds, t):
    """t lies in the smallest interval covering every non-empty interval of ds: some member is <= t
    and some member is >= t."""
    below = E.or_(*[E.and_(E.not_(E.is_empty(d)), has_le(E, d, t)) for d in ds])
    above = E.or_(*[E.and_(E.not_(E.is_empty(d)), has_ge(E, d, t)) for d in ds])
    return E.and_(below, above)


def has_le(E, d, t):
    if E.is_empty(d):
        return False
    return E.or_(d.start < t, E.and_(d.start == t, E.not_(d.start_open)))


def has_ge(E, d, t):
    if E.is_empty(d):
        return False
    return E.or_(d.end > t, E.and_(d.end == t, E.not_(d.end_open)))


def build(E, kind, n, kinds):
    fs = [abs_curve(E, 'f%d' % i, kinds=kinds) for i in range(n)]
    C = E.cp.Curve
    args = E.pick('args', ['list', 'args'])
    fn = {'min': C.min, 'max': C.max, 'first': C.first, 'min-any': C.min, 'max-any': C.max}[kind]
    kw = {'ignore_empty': True} if kind.endswith('-any') else {}
    c = E.ok('combine', fn, list(fs), **kw) if args == 'list' else E.ok('combine', fn, *fs, **kw)
    return fs, c, (kind in ('first', 'min-any', 'max-any'))


def spec(E, kind, fs, union, x):
    ds = [f.D for f in fs]
    inside = cover(E, ds, x) if union else E.and_(*[E.inside(d, x) for d in ds])
    if not E.decide(inside):
        return None
    vals = [f.y(x) for f in fs]
    have = [v for v in vals if v is not None]
    if not have:
        return None
    r = have[0]
    if kind != 'first':
        for v in have[1:]:
            r = E.ite(v < r, v, r) if kind.startswith('min') else E.ite(v > r, v, r)
    return r


def go(E, kind, n, kinds):
    fs, c, union = build(E, kind, n, kinds)
    x = E.real('x')
    E.check('selects the right value', E.same(E.ok('y', c.y, x), spec(E, kind, fs, union, x)))
    ds = [f.D for f in fs]
    if union:
        same_set(E, 'domain covers the operand domains', c.domain, lambda t: cover(E, ds, t))
    else:
        same_set(E, 'domain is the intersection', c.domain, lambda t: E.and_(*[E.inside(d, t) for d in ds]))


KINDS = ('min', 'max', 'first', 'min-any', 'max-any')


@contract(P, 'select.two', functions=FNS, splits=KINDS, weight=3)
def _(E):
    go(E, E.param, 2, None)


@contract(P, 'select.one', functions=FNS, splits=KINDS)
def _(E):
    go(E, E.param, 1, None)


@contract(P, 'select.three', bound='3 operands', functions=FNS, splits=KINDS, weight=5)
def _(E):
    go(E, E.param, 3, ('finite', 'inf'))


@contract(P, 'select.four', bound='4 operands, whole-line domains', functions=FNS, splits=KINDS, weight=4)
def _(E):
    go(E, E.param, 4, ('inf',))


@contract(P, 'select.mixed', functions=FNS, splits=KINDS)
def _(E):
    """Numbers and callables among the operands."""
    kind = E.param
    f = abs_curve(E, 'f')
    v = E.real('v')
    g = E.fn('g')
    C = E.cp.Curve
    fn = {'min': C.min, 'max': C.max, 'first': C.first, 'min-any': C.min, 'max-any': C.max}[kind]
    c = E.ok('combine', fn, [f, v, g], **({'ignore_empty': True} if kind.endswith('-any') else {}))
    x = E.real('x')
    union = kind in ('first', 'min-any', 'max-any')
    if not union and not E.decide(E.inside(f.D, x)):
        want = None
    else:
        have = [a for a in (f.y(x), v, g(x)) if a is not None]
        want = have[0]
        if kind != 'first':
            for a in have[1:]:
                want = E.ite(a < want, a, want) if kind.startswith('min') else E.ite(a > want, a, want)
    E.check('selects the right value', E.same(E.ok('y', c.y, x), want))
