from dv.harness import contract
from .common import Watch
import math

P = 'C08'
LINE = ['Line.set', 'Line.y', 'Line.x', 'Line.d_y', 'Line.const', 'Line.partial_integration']
SIN = ['Sin.set', 'Sin.y', 'Sin.d_y', 'Sin.frequency', 'Sin.period']


def whole_line(E, label, d):
    t = E.real('anywhere')
    E.check(label, E.inside(d, t))


def line_kwargs(E, how):
    """-> (keyword arguments, slope, a point on the line)"""
    if how in ('p1p2', 'points'):
        p1 = (E.real('x1'), E.real('y1'))
        p2 = (E.real('x2'), E.real('y2'))
        E.assume(p1[0] != p2[0])
        kw = {'p1': p1, 'p2': p2} if how == 'p1p2' else {'points': [p1, p2]}
        return kw, (p2[1] - p1[1]) / (p2[0] - p1[0]), p1
    m = E.real('m')
    if how == 'const-slope':
        c = E.real('c')
        return {'const': c, 'slope': m}, m, (0, c)
    if how == 'point-slope':
        p = (E.real('x1'), E.real('y1'))
        return {'p1': p, 'slope': m}, m, p
    if how == 'const-p2':
        c = E.real('c')
        p2 = (E.real('x2'), E.real('y2'))
        E.assume(p2[0] != 0)
        return {'const': c, 'p2': p2}, (p2[1] - c) / p2[0], (0, c)


HOW = ('p1p2', 'points', 'const-slope', 'point-slope', 'const-p2')


@contract(P, 'line.value', functions=LINE, splits=HOW)
def _(E):
    kw, m, p = line_kwargs(E, E.param)
    l = E.ok('construct', E.cp.Line, **kw)
    x = E.real('x')
    y = E.ok('y', l.y, x)
    E.check('value is the affine function of the data', E.same(y, p[1] + m * (x - p[0])))
    E.check('passes through the given point', E.same(l.y(p[0]), p[1]))
    E.check('derivative is the slope', E.same(E.ok('d_y', l.d_y, x), m))
    E.check('derivative is the slope (forward)', E.same(E.ok('d_y', l.d_y, x, forward=True), m))
    E.check('slope', E.same(l.slope, m))
    E.check('const is the value at zero', E.same(E.ok('const', lambda: l.const), p[1] - m * p[0]))
    whole_line(E, 'domain is the whole line', l.domain)
    E.check('calling is evaluating', E.same(l(x), y))


@contract(P, 'line.through-second', functions=LINE, splits=('p1p2', 'points', 'const-p2'))
def _(E):
    kw, m, p = line_kwargs(E, E.param)
    l = E.ok('construct', E.cp.Line, **kw)
    p2 = kw['points'][1] if 'points' in kw else kw['p2']
    E.check('passes through the second point', E.same(l.y(p2[0]), p2[1]))


@contract(P, 'line.inverse', functions=LINE, splits=HOW)
def _(E):
    kw, m, p = line_kwargs(E, E.param)
    E.assume(m != 0)
    l = E.ok('construct', E.cp.Line, **kw)
    x, y = E.real('x'), E.real('y')
    E.check('x inverts y', E.same(E.ok('x', l.x, l.y(x)), x))
    E.check('y inverts x', E.same(l.y(E.ok('x', l.x, y)), y))


@contract(P, 'line.area', functions=LINE, splits=HOW)
def _(E):
    kw, m, p = line_kwargs(E, E.param)
    l = E.ok('construct', E.cp.Line, **kw)
    a, b, c = E.real('a'), E.real('b'), E.real('c')
    ya, yb = p[1] + m * (a - p[0]), p[1] + m * (b - p[0])
    A = E.ok('area', l.partial_integration, a, b)
    E.check('integral is the exact area', E.same(A, (ya + yb) / 2 * (b - a)))
    E.check('integral is additive', E.same(E.ok('area', l.partial_integration, a, c), A + E.ok('area', l.partial_integration, b, c)))


@contract(P, 'line.set', functions=LINE, splits=[(a, b) for a in ('const-slope', 'p1p2') for b in ('same', 'point-slope', 'points', 'const-slope')])
def _(E):
    """Changing a line takes effect at once and notifies exactly when something changes."""
    a, b = E.param
    kw, m, p = line_kwargs(E, a)
    l = E.ok('construct', E.cp.Line, **kw)
    w = Watch(l)
    E.check('domain is read before', E.not_(l.domain.is_empty))
    kw2, m2, p2 = (kw, m, p) if b == 'same' else line_kwargs(E, b)
    E.ok('set', l.set, **kw2)
    x = E.real('x')
    E.check('takes effect at once', E.same(E.ok('y', l.y, x), p2[1] + m2 * (x - p2[0])))
    E.check('slope takes effect at once', E.same(l.d_y(x), m2))
    unchanged = E.and_(E.same(m, m2), E.same(p[1] + m * (p2[0] - p[0]), p2[1]))
    if b == 'same':
        E.check('no notification without a change', w.kinds == [])
    elif not E.decide(unchanged):
        E.check('one begin and one end notification', w.kinds == ['begin', 'end'])
        t = E.real('t')
        for k, d in w.log:
            E.check('the whole line is notified', E.inside(d, t))
    else:
        E.check('begin and end notifications match', w.kinds in ([], ['begin', 'end']))
    E.check('not left updating', E.not_(l.is_updating))


@contract(P, 'line.invalid', functions=['Line.set'])
def _(E):
    """An incomplete description is rejected and changes nothing."""
    kw, m, p = line_kwargs(E, 'const-slope')
    l = E.ok('construct', E.cp.Line, **kw)
    w = Watch(l)
    bad = E.pick('bad', [{'slope': 1.0}, {'const': 1.0}, {'p1': (1.0, 2.0)}, {}])
    E.check('incomplete description is rejected', E.raises(l.set, **bad))
    x = E.real('x')
    E.check('rejected description changes nothing', E.same(l.y(x), p[1] + m * (x - p[0])))
    E.check('rejected description notifies nobody', w.kinds == [])
    E.check('not left updating', E.not_(l.is_updating))


@contract(P, 'constant.value', functions=['Constant.y', 'Constant.d_y', 'Constant.x', 'Constant.get_domain', 'Curve.const'])
def _(E):
    v = E.real('v')
    how = E.pick('how', ['Constant', 'const', 'domain'])
    d = None
    if how == 'Constant':
        c = E.ok('construct', E.cp.Constant, v)
    elif how == 'const':
        c = E.ok('construct', E.cp.Curve.const, v)
    else:
        d = E.interval('D', kinds=('finite', 'pinf', 'point'))
        c = E.ok('construct', E.cp.Constant, v, domain=d)
    x = E.real('x')
    if d is None or E.decide(E.inside(d, x)):
        E.check('value everywhere', E.same(E.ok('y', c.y, x), v))
        E.check('zero derivative', E.same(E.ok('d_y', c.d_y, x), 0))
        E.check('zero forward derivative', E.same(E.ok('d_y', c.d_y, x, forward=True), 0))
    E.check('domain', E.iff(E.inside(c.domain, x), True if d is None else E.inside(d, x)))
    E.check('value attribute', E.same(c.value, v))
    y = E.real('y')
    r = E.ok('x', c.x, y)
    if E.decide(y == v):
        E.check('some x is found for the value', r is not None)
    else:
        E.check('no x is found for another value', r is None)


@contract(P, 'constant.change', functions=['Constant.value'])
def _(E):
    v, v2 = E.real('v'), E.real('v2')
    d = E.interval('D', kinds=('finite', 'inf'))
    c = E.ok('construct', E.cp.Constant, v, domain=d)
    w = Watch(c)
    x = E.real('x')
    E.assume(E.inside(d, x))
    E.ok('y', c.y, x)
    E.ok('set', setattr, c, 'value', v2)
    E.check('takes effect at once', E.same(c.y(x), v2))
    if E.decide(v == v2):
        E.check('no notification without a change', w.kinds == [])
    else:
        E.check('one begin and one end notification', w.kinds == ['begin', 'end'])
        for k, i in w.log:
            E.check('the whole domain is notified', E.inside(i, x))
    E.check('not left updating', E.not_(c.is_updating))


@contract(P, 'constant.zero', functions=['Constant.zero', 'Curve.zero'])
def _(E):
    x = E.real('x')
    E.check('zero is zero', E.same(E.ok('zero', E.cp.Constant.zero).y(x), 0))
    E.check('Curve.zero is zero', E.same(E.ok('Curve.zero', E.cp.Curve.zero).y(x), 0))


@contract(P, 'empty.curve', functions=['Empty.y', 'Empty.get_domain', 'Curve.empty'])
def _(E):
    e = E.ok('empty', E.cp.Curve.empty)
    x = E.real('x')
    E.check('an empty curve has no value', E.ok('y', e.y, x) is None)
    E.check('an empty curve has no slope', E.ok('d_y', e.d_y, x) is None)
    E.check('an empty curve has no domain', E.is_empty(e.domain))
    E.check('an empty curve has no points', E.ok('sample', e.sample_points) == [])
    E.check('an empty curve has no ends', E.ok('first', e.first_point) is None and E.ok('last', e.last_point) is None)


def sin_kwargs(E):
    A = E.real('A')
    kw = {'amplitude': A}
    if E.pick('rate', ['period', 'frequency']) == 'period':
        T = E.real('T')
        E.assume(T != 0)
        kw['period'] = T
        w = 2 * E.pi / T
    else:
        f = E.real('freq')
        E.assume(f != 0)
        kw['frequency'] = f
        w = 2 * E.pi * f
    ph = E.pick('phase', ['none', 'phase', 'phase_x'])
    p = 0
    if ph == 'phase':
        p = kw['phase'] = E.real('ph')
    elif ph == 'phase_x':
        kw['phase_x'] = E.real('phx')
        p = kw['phase_x'] * w
    return kw, A, w, p


@contract(P, 'sin.formula', functions=SIN)
def _(E):
    kw, A, w, p = sin_kwargs(E)
    s = E.ok('construct', E.cp.Sin, **kw)
    x = E.real('x')
    # the angle is compared first, so that equal angles are the same angle to the solver
    E.check('angular frequency', E.same(s.x_coef, w))
    E.check('value', E.same(E.ok('y', s.y, x), A * E.sin(w * x + p)))
    E.check('derivative', E.same(E.ok('d_y', s.d_y, x), A * w * E.cos(w * x + p)))
    E.check('derivative (forward)', E.same(E.ok('d_y', s.d_y, x, forward=True), A * w * E.cos(w * x + p)))
    E.check('period', E.same(E.ok('period', lambda: s.period) * w, 2 * E.pi))
    E.check('frequency', E.same(E.ok('frequency', lambda: s.frequency) * 2 * E.pi, w))
    E.check('amplitude', E.same(s.amplitude, A))
    whole_line(E, 'domain is the whole line', s.domain)


@contract(P, 'sin.set', functions=SIN)
def _(E):
    s = E.ok('construct', E.cp.Sin, amplitude=1, period=1)
    w_ = Watch(s)
    kw, A, w, p = sin_kwargs(E)
    E.ok('set', s.set, **kw)
    x = E.real('x')
    E.check('takes effect at once', E.same(E.ok('y', s.y, x), A * E.sin(w * x + p)))
    E.check('one begin and one end notification', w_.kinds == ['begin', 'end'])
    E.check('not left updating', E.not_(s.is_updating))


@contract(P, 'sin.invalid', functions=['Sin.set'])
def _(E):
    """An incomplete description is rejected and leaves the curve as it was."""
    s = E.ok('construct', E.cp.Sin, amplitude=2, period=4)
    w = Watch(s)
    x = E.real('x')
    y = s.y(x)
    bad = E.pick('bad', [{'amplitude': 1.0}, {'period': 2.0}, {}, {'amplitude': 1.0, 'phase_x': 1.0},
                         {'amplitude': 1.0, 'period': 2.0, 'phase': None}])
    E.check('incomplete description is rejected', E.raises(s.set, **bad))
    E.check('not left updating', E.not_(s.is_updating))
    E.check('rejected description changes nothing', E.same(E.ok('y', s.y, x), y))
    E.check('rejected description notifies nobody', w.kinds == [])
