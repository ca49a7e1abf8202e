import math

from dv.harness import contract
from .common import abs_curve

P = 'C17'
STEP = ['Curve.x_next', 'Curve.x_previous', 'Curve.resolve_min_step', 'Curve.d_y', 'Curve.next_point',
        'Curve.previous_point']
SAMPLE = ['Curve.sample_points']
DOMS = ('point', 'finite', 'ninf', 'pinf', 'inf')


def inside_end(E, d, x):
    """x is not after the end of d."""
    return E.or_(x < d.end, E.and_(x == d.end, E.not_(d.end_open)))


def inside_start(E, d, x):
    return E.or_(x > d.start, E.and_(x == d.start, E.not_(d.start_open)))


def steps(E, own, asked):
    m = E.posreal('own') if own == 'own' else None
    s = E.posreal('asked')
    kw = {}
    if asked == 'given':
        kw['min_step'] = s
        eff = s if m is None else E.ite(m > s, m, s)
    elif asked == 'default':
        eff = 1e-5 if m is None else E.ite(m > 1e-5, m, 1e-5)
    elif asked == 'none':
        kw['min_step'] = None
        eff = m
    return m, kw, eff


@contract(P, 'curve.step', functions=STEP,
          splits=[(k, own, asked, lim) for k in DOMS for own, asked in (('own', 'given'), ('no', 'given'), ('no', 'default'), ('own', 'none'))
                  for lim in (False, True)])
def _(E):
    k, own, asked, lim = E.param
    m, kw, s = steps(E, own, asked)
    c = abs_curve(E, 'f', kinds=(k,), min_step=m)
    x = E.real('x')
    d = c.domain
    E.assume(E.inside(d, x))
    up = dn = None
    if lim:
        up = x + E.real('up', lo=0)
        dn = x - E.real('dn', lo=0)
    n = E.ok('x_next', c.x_next, x, limit=up, **kw)
    p = E.ok('x_previous', c.x_previous, x, limit=dn, **kw)
    wn, wp = x + s, x - s
    if lim:
        wn = E.ite(wn > up, up, wn)
        wp = E.ite(wp < dn, dn, wp)
    if E.decide(inside_end(E, d, wn)):
        E.check('x_next advances by the larger step, not beyond the limit', E.same(n, wn))
    else:
        E.check('no next x outside the domain', n is None)
    if E.decide(inside_start(E, d, wp)):
        E.check('x_previous goes back by the larger step, not beyond the limit', E.same(p, wp))
    else:
        E.check('no previous x outside the domain', p is None)
    if not lim:
        q, r = E.ok('next_point', c.next_point, x, **kw), E.ok('previous_point', c.previous_point, x, **kw)
        for a, b in ((q, n), (r, p)):
            if b is None:
                E.check('no point outside the domain', a is None)
            else:
                E.check('the neighbouring point', E.and_(E.same(a[0], b), E.same(a[1], c.y(b))))


@contract(P, 'curve.step.infinite', functions=STEP, splits=DOMS)
def _(E):
    """An infinite step leads to the end of the domain."""
    c = abs_curve(E, 'f', kinds=(E.param,), min_step=math.inf)
    d = c.domain
    x = E.real('x')
    E.assume(E.inside(d, x))
    n, p = E.ok('x_next', c.x_next, x), E.ok('x_previous', c.x_previous, x)
    E.check('the end follows', E.same(n, d.end if E.decide(E.inside(d, d.end)) else None))
    E.check('the start precedes', E.same(p, d.start if E.decide(E.inside(d, d.start)) else None))
    lim = x + E.posreal('dl')
    n = E.ok('x_next', c.x_next, x, limit=lim)
    w = E.ite(d.end > lim, lim, d.end) if not (isinstance(d.end, float) and math.isinf(d.end)) else lim
    if E.decide(inside_end(E, d, w)):
        E.check('but not beyond the limit', E.same(n, w))


@contract(P, 'curve.slope', functions=STEP,
          splits=[(k, own, asked, f) for k in DOMS for own, asked in (('own', 'given'), ('no', 'given'), ('no', 'default'))
                  for f in (False, True)])
def _(E):
    k, own, asked, forward = E.param
    m, kw, s = steps(E, own, asked)
    c = abs_curve(E, 'f', kinds=(k,), min_step=m)
    x = E.real('x')
    E.assume(E.inside(c.domain, x))
    dy = E.ok('d_y', c.d_y, x, forward=forward, **kw)
    x1 = x + s if forward else x - s
    y, y1 = c.y(x), c.y(x1)
    if y is None or y1 is None:
        E.check('no slope without both values', dy is None)
    else:
        E.check('the slope is the difference quotient', E.same(dy, (y1 - y) / (x1 - x)))


@contract(P, 'curve.slope.limit', functions=STEP, splits=[(k, f) for k in ('finite', 'inf') for f in (False, True)])
def _(E):
    k, forward = E.param
    c = abs_curve(E, 'f', kinds=(k,))
    x = E.real('x')
    E.assume(E.inside(c.domain, x))
    s, l = E.posreal('asked'), E.posreal('lim')
    dy = E.ok('d_y', c.d_y, x, forward=forward, min_step=s, limit=x + l if forward else x - l)
    h = E.ite(s < l, s, l)
    x1 = x + h if forward else x - h
    y, y1 = c.y(x), c.y(x1)
    if y is None or y1 is None:
        E.check('no slope without both values', dy is None)
    else:
        E.check('the slope is taken within the limit', E.same(dy, (y1 - y) / (x1 - x)))


@contract(P, 'curve.ends', functions=['Curve.first_point', 'Curve.last_point', 'Curve.y_start', 'Curve.y_end'])
def _(E):
    c = abs_curve(E, 'f', kinds=('empty', 'point', 'finite'))
    d = c.domain
    a, b = E.ok('first_point', c.first_point), E.ok('last_point', c.last_point)
    if E.is_empty(d):
        E.check('no first and last point of an empty curve', a is None and b is None)
    else:
        E.check('first point', E.same(a, (d.start, c.y(d.start))))
        E.check('last point', E.same(b, (d.end, c.y(d.end))))
        E.check('end values', E.and_(E.same(c.y_start(), c.y(d.start)), E.same(c.y_end(), c.y(d.end))))


def area(E, c):
    """A finite domain of interest, and its intersection with the curve's domain."""
    how = E.pick('of', ['all', 'part'])
    if how == 'all':
        return None, c.domain
    d = E.interval('A', kinds=('finite', 'point'))
    a = c.domain
    # intersection, from first principles
    lo = E.decide(d.start > a.start)
    so = d.start_open if lo else (E.or_(d.start_open, a.start_open) if E.decide(d.start == a.start) else a.start_open)
    hi = E.decide(d.end < a.end)
    eo = d.end_open if hi else (E.or_(d.end_open, a.end_open) if E.decide(d.end == a.end) else a.end_open)
    s, e = d.start if lo else a.start, d.end if hi else a.end
    if E.decide(E.or_(s > e, E.and_(s == e, E.or_(so, eo)))):
        return d, None
    return d, (s, e, bool(so), bool(eo))


def parts(E, i):
    if i is None or isinstance(i, tuple):
        return i
    return (i.start, i.end, bool(i.start_open), bool(i.end_open))


@contract(P, 'curve.sample', functions=SAMPLE, bound='domains shorter than 3 steps',
          splits=[(k, own) for k in ('point', 'finite', 'pinf', 'inf') for own in ('own', 'no')])
def _(E):
    k, own = E.param
    m, kw, s = steps(E, own, 'given')
    c = abs_curve(E, 'f', kinds=(k,), min_step=m, none=False)
    if k in ('pinf', 'inf'):
        d = E.interval('A', kinds=('finite', 'point'))
        E.assume(E.inside(c.domain, d.start))
        i = parts(E, d)
    else:
        d, i = area(E, c)
    if i is None or (not isinstance(i, tuple) and E.is_empty(i)):
        E.check('nothing to sample', E.ok('sample', c.sample_points, domain=d, **kw) == [])
        return
    a, b, so, eo = parts(E, i)
    E.assume(b - a < s * 3)
    got = E.ok('sample', c.sample_points, domain=d, **kw)
    I = E.Interval(a, b, start_open=so, end_open=eo)
    for n, q in enumerate(got):
        E.check('every sample lies in the domain', E.inside(I, q[0]))
        E.check('every sample is a point of the curve', E.same(q[1], c.y(q[0])))
        if n:
            E.check('samples are strictly ascending', got[n - 1][0] < q[0])
        if n and n + 1 < len(got):
            E.check('samples are one step apart', E.same(q[0] - got[n - 1][0], s))
    if not so:
        E.check('a closed start is sampled', len(got) > 0 and E.same(got[0][0], a))
    if not eo:
        E.check('a closed end is sampled', len(got) > 0 and E.same(got[-1][0], b))
    E.check('no gap is longer than a step', E.and_(
        *[E.le(q[0] - p[0], s) for p, q in zip(got, got[1:])],
        *([E.le(got[0][0] - a, s), E.le(b - got[-1][0], s)] if got else [E.le(b - a, s)])))


@contract(P, 'curve.sample.step', functions=SAMPLE, bound='domains shorter than 3 steps',
          splits=[(k, own, kw) for k in ('point', 'finite') for own in ('own', 'no') for kw in ('default', 'none', 'zero')])
def _(E):
    k, own, kw = E.param
    m = E.posreal('own') if own == 'own' else None
    c = abs_curve(E, 'f', kinds=(k,), min_step=m, none=False)
    d, i = area(E, c)
    if i is None or (not isinstance(i, tuple) and E.is_empty(i)):
        return
    a, b, so, eo = parts(E, i)
    h = E.posreal('h')
    E.assume(b - a < h * 3)
    kw = {'default': {}, 'none': {'min_step': None}, 'zero': {'min_step': 0}}[kw]
    got = E.ok('sample', c.sample_points, domain=d, step=h, **kw)
    I = E.Interval(a, b, start_open=so, end_open=eo)
    want = [(a + h * n, c.y(a + h * n)) for n in range(4) if E.decide(E.inside(I, a + h * n))]
    E.check('samples are the points at start, start + step, ... inside the domain', E.same([tuple(q) for q in got], want))


@contract(P, 'curve.sample.invalid', functions=SAMPLE)
def _(E):
    c = abs_curve(E, 'f', kinds=('ninf', 'pinf', 'inf'))
    E.check('an infinite domain cannot be sampled', E.raises(c.sample_points))
    c = abs_curve(E, 'g', kinds=('finite',))
    d = c.domain
    E.assume(d.start < d.end)
    E.check('sampling needs a step', E.raises(c.sample_points, min_step=0))
    E.check('sampling needs a step (none)', E.raises(c.sample_points, min_step=None))


@contract(P, 'curve.sample.irregular', functions=SAMPLE, bound='at most 4 samples')
def _(E):
    """A curve with arbitrary, but advancing, steps."""
    a = E.real('a')
    b = a + E.posreal('len')
    I = E.Interval(a, b, start_open=E.bool('so'), end_open=E.bool('eo'))
    f = E.fn('f')
    xs = [a]
    for n in range(3):
        xs.append(xs[-1] + E.posreal('gap%d' % n))
    E.assume(xs[-1] > b)

    class Stepped(E.cp.Curve):
        def get_domain(self):
            return I

        def y(self, x):
            return f(x)

        def x_next(self, x, min_step=1e-5, limit=None):
            for t in xs:
                if t > x:
                    return t if t <= b else None
            return None
    c = Stepped()
    got = E.ok('sample', c.sample_points)
    want = [x for x in xs if E.decide(E.inside(I, x))]
    if E.decide(E.and_(E.not_(I.end_open), E.not_(E.or_(*[x == b for x in want])) if want else E.not_(I.end_open))):
        want.append(b)
    E.check('the curve\'s own steps, and the closed end', E.same([tuple(q) for q in got], [(x, f(x)) for x in want]))


@contract(P, 'curve.sample.from', functions=['Curve.sample_points_from_x'], bound='at most 3 samples',
          splits=[(n, b, o) for n in range(-3, 4) for b in (False, True) for o in (False, True)])
def _(E):
    limit, backward, open_ = E.param
    c = abs_curve(E, 'f', kinds=('finite', 'inf'))
    x = E.real('x')
    E.assume(E.inside(c.domain, x))
    kw = {}
    s = 1e-5
    if E.pick('asked', [False, True]):
        s = kw['min_step'] = E.posreal('s')
    got = E.ok('sample', c.sample_points_from_x, x, limit, backward=backward, open=open_, **kw)
    n = abs(limit)
    sign = -1 if (backward != (limit < 0)) else 1
    want = []
    t = x
    for i in range(5):
        if len(want) == n:
            break
        if i or open_:
            t = t + s * sign
        y = c.y(t)
        if y is None:
            break
        want.append((t, y))
    E.check('the requested number of consecutive neighbours', E.same([tuple(p) for p in got], want))


@contract(P, 'curve.range', functions=['Curve.get_range'], bound='domains shorter than 3 steps')
def _(E):
    a = E.real('a')
    h = E.posreal('h')
    d = E.Interval(a, a + h * 2)
    c = abs_curve(E, 'f', domain=d)
    r = E.ok('range', c.get_range, step=h)
    ys = [y for y in (c.y(a), c.y(a + h), c.y(a + h * 2)) if y is not None]
    if not ys:
        E.check('no range without values', E.is_empty(r))
    else:
        E.check('every sampled value is in the range', E.and_(*[E.inside(r, y) for y in ys]))
        E.check('the ends of the range are sampled values', E.and_(E.or_(*[E.same(r.start, y) for y in ys]),
                                                                   E.or_(*[E.same(r.end, y) for y in ys])))
    e = abs_curve(E, 'e', kinds=('empty',))
    E.check('an empty curve has an empty range', E.is_empty(E.ok('range', e.get_range)))
