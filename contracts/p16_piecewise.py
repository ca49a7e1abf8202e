from dv.harness import contract
from .common import abs_curve, same_set, Watch

P = 'C16'
FN = ['Piecewise.y', 'Piecewise.get_domain', 'Piecewise.__init__']


def partition(E, k, closed_left, gap):
    """k ascending, disjoint sub-domains; flags arbitrary at the outer ends and at gaps."""
    I = E.Interval
    x = E.real('b0')
    ds = []
    so = E.bool('so')
    for i in range(k):
        y = x + E.posreal('len%d' % i)
        last = i == k - 1
        if gap or last:
            eo = E.bool('eo%d' % i)
        else:
            eo = closed_left
        ds.append(I(x, y, start_open=so, end_open=eo))
        if gap and not last:
            x = y + E.posreal('gap%d' % i)
            so = E.bool('so%d' % i)
        else:
            x = y
            so = not eo if not gap else False
    return ds


def select(E, ds, x):
    for i, d in enumerate(ds):
        if E.decide(E.inside(d, x)):
            return i
    return None


@contract(P, 'piecewise.value', bound='<=3 parts', functions=FN,
          splits=[(k, c, g, b) for k in (1, 2, 3) for c in (True, False) for g in (True, False) if k > 1 or (c and not g)
                  for b in range(-1, 2 * k)])
def _(E):
    k, closed, gap, b = E.param
    ds = partition(E, k, closed, gap)
    cs = [abs_curve(E, 'f%d' % i, kinds=('inf',)) for i in range(k)]
    pw = E.ok('construct', E.cp.Piecewise, cs, ds)
    # anywhere, and exactly at the boundaries, where open and closed ends matter
    x = E.real('x') if b < 0 else (ds[b // 2].start, ds[b // 2].end)[b % 2]
    i = select(E, ds, x)
    E.check('value of the part whose sub-domain contains x', E.same(E.ok('y', pw.y, x), None if i is None else cs[i].y(x)))
    E.check('domain is the covering interval', E.same_interval(
        pw.domain, E.Interval(ds[0].start, ds[-1].end, start_open=ds[0].start_open, end_open=ds[-1].end_open)))


@contract(P, 'piecewise.infinite', bound='2 parts', functions=FN, splits=(True, False))
def _(E):
    import math
    I = E.Interval
    b = E.real('b')
    o = E.param
    ds = [I(-math.inf, b, start_open=True, end_open=o), I(b, math.inf, start_open=not o, end_open=True)]
    cs = [abs_curve(E, 'f%d' % i, kinds=('inf',)) for i in range(2)]
    pw = E.ok('construct', E.cp.Piecewise, cs, ds)
    x = E.real('x')
    i = select(E, ds, x)
    E.check('value of the part whose sub-domain contains x', E.same(E.ok('y', pw.y, x), cs[i].y(x)))
    E.check('the whole line is covered', E.inside(pw.domain, x))


@contract(P, 'piecewise.invalid', functions=['Piecewise.__init__'])
def _(E):
    c = abs_curve(E, 'f', kinds=('inf',))
    E.check('one sub-domain per part', E.raises(E.cp.Piecewise, [c, c], [E.Interval(0, 1)]))


@contract(P, 'piecewise.parse', bound='2 parts', functions=FN)
def _(E):
    """Parts may be numbers and sub-domains tuples."""
    a, b = E.real('a'), E.real('b')
    pw = E.ok('construct', E.cp.Piecewise, [a, b], [(0, 1), (2, 3)])
    x = E.real('x')
    w = a if E.decide(E.and_(x >= 0, x <= 1)) else b if E.decide(E.and_(x >= 2, x <= 3)) else None
    E.check('value of the part', E.same(E.ok('y', pw.y, x), w))


@contract(P, 'piecewise.step', bound='2 parts', functions=['Piecewise.x_next', 'Piecewise.x_previous'], splits=(True, False))
def _(E):
    ds = partition(E, 2, E.param, False)
    cs = [abs_curve(E, 'f%d' % i, kinds=('inf',)) for i in range(2)]
    pw = E.ok('construct', E.cp.Piecewise, cs, ds)
    x, s = E.real('x'), E.posreal('s')
    E.assume(E.inside(pw.domain, x))
    n, p = E.ok('x_next', pw.x_next, x, min_step=s), E.ok('x_previous', pw.x_previous, x, min_step=s)
    if E.decide(E.inside(pw.domain, x + s)):
        E.check('the next step of the part it lies in', E.same(n, x + s))
    else:
        E.check('no next x outside the domain', n is None)
    if E.decide(E.inside(pw.domain, x - s)):
        E.check('the previous step of the part it lies in', E.same(p, x - s))
    else:
        E.check('no previous x outside the domain', p is None)


@contract(P, 'piecewise.notify', bound='2 parts', functions=FN, splits=('two', 'same'))
def _(E):
    ds = partition(E, 2, True, False)
    a = abs_curve(E, 'a', kinds=('inf',))
    b = a if E.param == 'same' else abs_curve(E, 'b', kinds=('inf',))
    pw = E.ok('construct', E.cp.Piecewise, [a, b], ds)
    w = Watch(pw)
    src = E.pick('src', [a, b])
    d = E.interval('d', kinds=('finite', 'point', 'pinf'))
    src.begin_update(d)
    E.check('updating with a part', pw.is_updating)
    src.end_update(d)
    E.check('changes of a part are notified, once', w.kinds == ['begin', 'end'])
    E.check('not left updating', E.not_(pw.is_updating))
    t = E.real('t')
    E.check('the interval is the one of the part', E.and_(*[E.implies(E.inside(d, t), E.inside(i, t)) for k, i in w.log]))


@contract(P, 'blend.value', functions=['Curve.blend', 'Aggregate.y'] + FN, splits=('finite', 'pinf', 'inf'))
def _(E):
    f = abs_curve(E, 'f', kinds=(E.param,))
    g = abs_curve(E, 'g', kinds=('finite', 'inf') if E.param == 'finite' else ('pinf', 'inf'))
    s = E.real('s')
    e = s + E.posreal('len')
    D = f.domain
    # the blend lies in the interior of the first curve's domain
    E.assume(E.and_(D.start < s, e < D.end))
    b = E.ok('blend', f.blend, g, s, e)
    x = E.real('x')
    y = E.ok('y', b.y, x)
    if not E.decide(E.inside(D, x)):
        E.check('no value outside the domain', y is None)
    elif E.decide(x < s):
        E.check('the first curve before the blend', E.same(y, f.y(x)))
    elif E.decide(x >= e):
        E.check('the second curve after the blend', E.same(y, g.y(x)))
    else:
        p, q = f.y(x), g.y(x)
        if p is None or q is None:
            E.check('no value where one has none', y is None)
        else:
            u = (x - s) / (e - s)
            E.check('the linear mix in between', E.same(y, (1 - u) * p + u * q))
    E.check('domain of the first curve', E.same_interval(b.domain, D))


@contract(P, 'blend.ends', functions=['Curve.blend'])
def _(E):
    """The weight grows from 0 to 1: no jump at the start or at the stop."""
    f = abs_curve(E, 'f', kinds=('inf',), none=False)
    g = abs_curve(E, 'g', kinds=('inf',), none=False)
    s = E.real('s')
    e = s + E.posreal('len')
    b = E.ok('blend', f.blend, g, s, e)
    E.check('the first curve at the start', E.same(b.y(s), f.y(s)))
    E.check('the second curve at the stop', E.same(b.y(e), g.y(e)))
    u = E.real('u', lo=0, hi=1)
    x = s + u * (e - s)
    E.check('a convex combination in between', E.same(b.y(x), (1 - u) * f.y(x) + u * g.y(x)))
