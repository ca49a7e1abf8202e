import math

from dv.harness import contract
from .p03_points_eval import spec_y

P = 'C05'
NAV = ['Points.x_next', 'Points.x_previous', 'Points.x_index', '_bisect_points']
SAMPLE = ['Points.sample_points', 'Points._domain_indexes', 'Curve.sample_points']


def least(E, xs, t):
    """Least of xs that is >= t."""
    for x in xs:
        if E.decide(x >= t):
            return x
    return None


def greatest(E, xs, t):
    for x in reversed(xs):
        if E.decide(x <= t):
            return x
    return None


@contract(P, 'points.x_next', bound='n<=4 points', functions=NAV,
          splits=[(n, u, k) for n in range(5) for u in (True, False) for k in ('given', 'default')])
def _(E):
    n, u, k = E.param
    pts = E.pts('p', n, uniform=u)
    c = E.ok('construct', E.cp.Points, pts, uniform=u)
    xs = [p[0] for p in pts]
    x = E.real('x')
    if k == 'given':
        s = E.posreal('step')
        nx, pv = E.ok('x_next', c.x_next, x, min_step=s), E.ok('x_previous', c.x_previous, x, min_step=s)
    else:
        s = 1e-5
        nx, pv = E.ok('x_next', c.x_next, x), E.ok('x_previous', c.x_previous, x)
    E.check('x_next is the least stored x at least a step away', E.same(nx, least(E, xs, x + s)))
    E.check('x_previous is the greatest stored x at least a step away', E.same(pv, greatest(E, xs, x - s)))
    np_, pp = E.ok('next_point', c.next_point, x, min_step=s), E.ok('previous_point', c.previous_point, x, min_step=s)
    for q, r in ((np_, nx), (pp, pv)):
        if r is None:
            E.check('no neighbouring point', q is None)
        else:
            E.check('the neighbouring point is a stored point', E.or_(*[E.and_(E.same(q[0], p[0]), E.same(q[1], p[1])) for p in pts]))


@contract(P, 'points.x_next.infinite', bound='n<=3 points', functions=NAV,
          splits=[(n, u) for n in range(4) for u in (True, False)])
def _(E):
    n, u = E.param
    pts = E.pts('p', n, uniform=u)
    c = E.ok('construct', E.cp.Points, pts, uniform=u)
    E.check('the first point follows minus infinity', E.same(E.ok('x_next', c.x_next, -math.inf), pts[0][0] if n else None))
    E.check('the last point precedes infinity', E.same(E.ok('x_previous', c.x_previous, math.inf), pts[-1][0] if n else None))


@contract(P, 'points.sample', bound='n<=4 points', functions=SAMPLE,
          splits=[(n, u, k) for n in range(5) for u in (True, False)
                  for k in ('none', 'empty', 'point', 'finite', 'ninf', 'pinf', 'inf')])
def _(E):
    n, u, k = E.param
    pts = E.pts('p', n, uniform=u)
    c = E.ok('construct', E.cp.Points, pts, uniform=u)
    d = None if k == 'none' else E.interval('D', kinds=(k,))
    how = E.pick('how', ['plain', 'fine']) if n > 1 else 'plain'
    kw = {}
    if how == 'fine':
        kw['min_step'] = E.posreal('step')
        E.assume(kw['min_step'] <= (pts[-1][0] - pts[0][0]) / (n - 1))
    got = E.ok('sample', c.sample_points, domain=d, **kw)
    want = [p for p in pts if d is None or E.decide(E.inside(d, p[0]))]
    E.check('exactly the stored points inside, in order', E.same([tuple(p) for p in got], want))
    got.append('x')
    E.check('the sample is a copy', len(c.sample_points()) == n)


@contract(P, 'points.sample.step', bound='n<=3 points, <=4 steps', functions=SAMPLE,
          splits=[(n, u, k) for n in (2, 3) for u in (True, False) for k in ('none', 'finite')])
def _(E):
    n, u, k = E.param
    pts = E.pts('p', n, uniform=u)
    c = E.ok('construct', E.cp.Points, pts, uniform=u)
    s = E.posreal('step')
    if u:
        E.assume(s != pts[1][0] - pts[0][0])
    d = E.Interval(pts[0][0], pts[-1][0])
    if k == 'finite':
        d = E.interval('D', kinds=('finite',))
        E.assume(pts[0][0] <= d.start)
        E.assume(d.end <= pts[-1][0])
    E.assume(s * 4 > d.end - d.start)
    if c.is_uniform:
        # sampling an evenly spaced series at its own spacing is sampling the points
        E.assume(s != pts[1][0] - pts[0][0])
    got = E.ok('sample', c.sample_points, domain=None if k == 'none' else d, step=s)
    want = []
    for i in range(5):
        x = d.start + s * i
        if E.decide(E.inside(d, x)):
            want.append((x, spec_y(E, pts, 0, x)))
    E.check('values at start, start + step, ...', E.same([tuple(p) for p in got], want))
