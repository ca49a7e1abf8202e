import math

from dv.harness import contract
from .common import abs_curve, same_set, Watch

P = 'C09'
FN = ['Offset.y', 'Offset.d_y', 'Offset._interpolated_func', 'Offset.get_domain', 'Offset._offset_interval',
      'Offset._offset_x', 'Offset._unoffset_x', 'Curve.offset']
STEPF = ['Offset.x_next', 'Offset.x_previous']
DOMS = ('empty', 'point', 'finite', 'ninf', 'pinf', 'inf')


@contract(P, 'offset.value', functions=FN, splits=DOMS)
def _(E):
    c = abs_curve(E, 'f', kinds=(E.param,), stepper=True)
    h = E.real('h')
    o = E.ok('offset', c.offset, h)
    x = E.real('x')
    E.check('value is the value at x - h', E.same(E.ok('y', o.y, x), c.y(x - h)))
    same_set(E, 'domain is the domain moved by h', o.domain, lambda t: E.inside(c.domain, t - h))
    f = E.pick('forward', [False, True])
    want = c.d_y(x - h, forward=f) if E.decide(E.inside(c.domain, x - h)) else None
    E.check('slope is the slope at x - h', E.same(E.ok('d_y', o.d_y, x, forward=f), want))


@contract(P, 'offset.step', functions=STEPF, splits=[(k, l) for k in DOMS for l in (False, True)])
def _(E):
    k, lim = E.param
    c = abs_curve(E, 'f', kinds=(k,), stepper=True)
    h, x = E.real('h'), E.real('x')
    o = E.ok('offset', c.offset, h)
    s = E.posreal('s')
    kw, kc = {'min_step': s}, {'min_step': s}
    if lim:
        kw['limit'] = E.real('limit')
        kc['limit'] = kw['limit'] - h
    for name in ('x_next', 'x_previous'):
        got = E.ok(name, getattr(o, name), x, **kw)
        want = getattr(c, name)(x - h, **kc)
        if want is not None and not E.decide(E.inside(c.domain, want)):
            want = None
        E.check(name + ' is the source\'s step moved by h', E.same(got, None if want is None else want + h))


@contract(P, 'offset.slope.limit', functions=FN)
def _(E):
    c = abs_curve(E, 'f', kinds=('finite', 'inf'))
    h, x, l, s = E.real('h'), E.real('x'), E.posreal('l'), E.posreal('s')
    E.assume(E.inside(c.domain, x))
    o = E.ok('offset', c.offset, h)
    for f in (False, True):
        a = E.ok('d_y', o.d_y, x + h, forward=f, min_step=s, limit=x + h + (l if f else -l))
        b = c.d_y(x, forward=f, min_step=s, limit=x + (l if f else -l))
        E.check('the limit of the slope is moved too', E.same(a, b))


@contract(P, 'offset.notify', functions=['Offset.begin_offset_update', 'Offset.end_offset_update', 'Offset._offset_interval'],
          splits=('point', 'finite', 'ninf', 'pinf', 'inf'))
def _(E):
    c = abs_curve(E, 'f', kinds=('inf',))
    h = E.real('h')
    o = E.ok('offset', c.offset, h)
    w = Watch(o)
    d = E.interval('d', kinds=(E.param,))
    c.begin_update(d)
    E.check('updating with the source', o.is_updating)
    c.end_update(d)
    E.check('one begin and one end', w.kinds == ['begin', 'end'])
    E.check('not left updating', E.not_(o.is_updating))
    t = E.real('t')
    for k, i in w.log:
        E.check('changes are notified on the moved interval', E.iff(E.inside(i, t), E.inside(d, t - h)))


@contract(P, 'offset.domain-change', functions=FN)
def _(E):
    """The moved domain follows a change of the source's domain."""
    c = abs_curve(E, 'f', kinds=('finite', 'empty'))
    h = E.real('h')
    o = E.ok('offset', c.offset, h)
    o.domain
    new = E.interval('E', kinds=('finite', 'pinf', 'empty'))
    whole = E.Interval.infinite()
    c.begin_update(whole)
    c.D = new
    c.end_update(whole)
    same_set(E, 'the domain follows the source', o.domain, lambda t: E.inside(new, t - h))


PERIODS = {'1m': 60, '1h': 3600}


def grid(E, p, x):
    """The period starts around x."""
    a = E.floor(x / p) * p
    return a, (a if E.decide(a == x) else a + p)


@contract(P, 'offset.duration', functions=FN + ['Offset._res_step'],
          splits=[(d, k) for d in ('1h', '1m') for k in (-2, -1, 1, 3)])
def _(E):
    d, k = E.param
    p = PERIODS[d]
    i0 = E.int('i0')
    n = E.int('n', lo=0)
    dom = E.Interval(i0 * p * 1.0, (i0 + n) * p * 1.0)
    c = abs_curve(E, 'f', domain=dom)
    o = E.ok('offset', c.offset, k, duration=d)
    x = E.real('x')
    a, b = grid(E, p, x)
    u, v = a - k * p, b - k * p
    got = E.ok('y', o.y, x)
    if E.decide(E.and_(E.inside(dom, u), E.inside(dom, v))):
        ya, yb = c.y(u), c.y(v)
        if E.decide(a == b):
            E.check('at a period start: the value whole periods earlier', E.same(got, ya))
        elif ya is None or yb is None:
            E.check('no value between missing values', got is None)
        else:
            w = (x - a) / (b - a)
            E.check('between period starts: linear interpolation', E.same(got, ya * (1 - w) + yb * w))
    else:
        E.check('no value outside the domain', got is None)
    same_set(E, 'domain is moved by whole periods', o.domain, lambda t: E.inside(dom, t - k * p))


@contract(P, 'offset.duration.step', functions=STEPF, splits=[(d, k) for d in ('1h', '1m') for k in (-1, 2)])
def _(E):
    d, k = E.param
    p = PERIODS[d]
    i0 = E.int('i0')
    n = E.int('n', lo=0)
    dom = E.Interval(i0 * p * 1.0, (i0 + n) * p * 1.0)
    c = abs_curve(E, 'f', domain=dom)
    o = E.ok('offset', c.offset, k, duration=d)
    j = E.int('j')
    x = j * p * 1.0
    nx, pv = E.ok('x_next', o.x_next, x), E.ok('x_previous', o.x_previous, x)
    E.check('the next period start', E.same(nx, x + p if E.decide(E.inside(dom, x + p - k * p)) else None))
    E.check('the previous period start', E.same(pv, x - p if E.decide(E.inside(dom, x - p - k * p)) else None))


@contract(P, 'offset.duration.zero', functions=FN, splits=('1m', '1h'))
def _(E):
    c = abs_curve(E, 'f', kinds=('finite', 'inf', 'empty'))
    o = E.ok('offset', c.offset, 0, duration=E.param)
    x = E.real('x')
    E.check('a zero offset changes no value', E.same(E.ok('y', o.y, x), c.y(x)))
    same_set(E, 'a zero offset keeps the domain', o.domain, lambda t: E.inside(c.domain, t))


@contract(P, 'offset.duration.invalid', functions=['Offset.__init__'])
def _(E):
    c = abs_curve(E, 'f', kinds=('inf',))
    E.check('whole periods only', E.raises(c.offset, 1.5, duration='1s'))
