"""C15: extensions, over an arbitrary curve (value, slope and domain are opaque)."""
from dv.harness import contract
from .common import abs_curve, Watch

P = 'C15'
FN = ['Extension.y', 'Extension.get_domain', 'Extension.y_extension', 'Extension._update_extension_interval',
      'Extension._update_extension_if_needed', 'ConstantExtension.update_extension',
      'TangentExtension.update_extension', 'SinExtension.update_extension_func', 'Curve.extension']
KINDS = ('empty', 'point', 'closed', 'finite', 'ninf', 'pinf', 'inf')
SIDES = ((True, True), (True, False), (False, True), (False, False))


def left(f):
    return f.D.start is not None and not f.D.is_negative_infinite


def right(f):
    return f.D.start is not None and not f.D.is_positive_infinite


def build(E, kind, dk, s, e, **kw):
    f = abs_curve(E, 'f', kinds=(dk,), stepper=True)
    if kind == 'sin':
        kw['period'] = E.posreal('period')
    return f, E.ok('extension', f.extension, kind, start=s, end=e, **kw), kw.get('period')


@contract(P, 'extension.inside', functions=FN,
          splits=[(k, dk, s, e) for k in ('constant', 'tangent', 'sin') for dk in KINDS for s, e in SIDES])
def _(E):
    """Inside, the curve; outside a side that is not requested (or infinite), nothing."""
    kind, dk, s, e = E.param
    f, g, _ = build(E, kind, dk, s, e)
    if E.pick('domain first', [False, True]):
        g.domain
    x = E.real('x')
    y = E.ok('y', g.y, x)
    if dk == 'empty':
        E.check('an empty curve is not extended', y is None)
        E.check('an empty curve is not extended (domain)', E.is_empty(g.domain))
        return
    if E.decide(E.inside(f.D, x)):
        E.check('the original on its domain', E.same(y, f.y(x)))
        E.check('the domain covers the original one', E.inside(g.domain, x))
        return
    if E.decide(x <= f.D.start if left(f) else False):
        if not s:
            E.check('no value beyond an end that was not requested', y is None)
            E.check('that end stays outside the domain', E.not_(E.inside(g.domain, x)))
    else:
        if not e:
            E.check('no value beyond an end that was not requested', y is None)
            E.check('that end stays outside the domain', E.not_(E.inside(g.domain, x)))


def beyond(E, f, s, e):
    """An x beyond a requested closed end -> (x, the end, +1 or -1)."""
    sides = [d for d, ok in ((-1, s and left(f)), (1, e and right(f))) if ok]
    if not sides:
        E.end()
    d = E.pick('side', sides)
    far = E.posreal('far')
    end = f.D.end if d > 0 else f.D.start
    return end + far * d, end, d


CLOSED = ('point', 'closed', 'ninf', 'pinf')


@contract(P, 'extension.beyond', functions=FN,
          splits=[(k, dk, s, e) for k in ('constant', 'tangent') for dk in CLOSED for s, e in SIDES[:3]])
def _(E):
    kind, dk, s, e = E.param
    f, g, _ = build(E, kind, dk, s, e)
    x, end, d = beyond(E, f, s, e)
    E.assume(E.inside(f.D, end))
    first = E.pick('first', ['domain', 'value', 'inside'])
    if first == 'domain':
        g.domain
    elif first == 'inside':
        g.y(end)
    y = E.ok('y', g.y, x)
    v = f.y(end)
    slope = f.d_y(end, forward=(d < 0))
    if v is None or (kind == 'tangent' and slope is None):
        E.check('no value where the end has none', y is None)
        return
    E.check('the domain reaches beyond a requested end', E.inside(g.domain, x))
    E.check('the domain keeps the end', E.inside(g.domain, end))
    if kind == 'constant':
        E.check('keeps the end value', E.same(y, v))
    else:
        E.check('follows the line through the end point with the end slope', E.same(y, v + slope * (x - end)))
    E.check('continues the end value at the end', E.same(g.y(end), v))


@contract(P, 'extension.sin', functions=FN,
          splits=[(dk, s, e) for dk in ('point', 'closed', 'pinf', 'ninf') for s, e in SIDES[:3]])
def _(E):
    dk, s, e = E.param
    f, g, T = build(E, 'sin', dk, s, e)
    x, end, d = beyond(E, f, s, e)
    E.assume(E.inside(f.D, end))
    y = E.ok('y', g.y, x)
    v = f.y(end)
    slope = f.d_y(end, forward=(d < 0))
    if v is None or slope is None:
        E.check('no value where the end has none', y is None)
        return
    E.check('the domain reaches beyond a requested end', E.inside(g.domain, x))
    func = g.end_func if d > 0 else g.start_func
    sin, cos = E.sin, E.cos
    w, phase, A, W = 2 * E.pi / T, func.phase, func.amplitude, func.x_coef
    th = w * end
    S, C, sp, cp = sin(th), cos(th), sin(phase), cos(phase)
    num, den = w * v * C - slope * S, w * v * S + slope * C
    r = E.hypot(num, den)
    # the parameters of the sine
    E.lemma('the given period', E.same(W, w))
    E.lemma('polar form of the phase', E.and_(E.same(r * sp, num), E.same(r * cp, den)))
    E.derive('the amplitude', E.same(A * w, r), E.same(A, r / w), w > 0, lemma=True)
    # hence value and slope at the end
    E.trig_unit(th)
    E.trig_sum(th, phase, th + phase)
    sa, ca = sin(th + phase), cos(th + phase)
    pre = [E.same(r * sp, num), E.same(r * cp, den), E.same(S * S + C * C, 1), E.same(A * w, r)]
    E.derive('the sine has the value at the end', E.same(A * w * sa, w * v), E.same(sa, S * cp + C * sp), *pre, lemma=True)
    E.derive('the sine has the slope at the end', E.same(A * w * ca, slope), E.same(ca, C * cp - S * sp), *pre, lemma=True)
    # and the rest of the curve
    E.trig_sum(th + phase, w * (x - end), W * x + phase)
    sd, cd = sin(w * (x - end)), cos(w * (x - end))
    E.derive('a sine of the period through the end point with the end slope',
             E.same(w * y, w * v * cd + slope * sd),
             E.same(y, A * (sa * cd + ca * sd)), E.same(A * w * sa, w * v), E.same(A * w * ca, slope))


@contract(P, 'extension.raise_on_empty', functions=FN,
          splits=[(k, dk, s, e) for k in ('constant', 'tangent') for dk in ('empty', 'point', 'closed') for s, e in SIDES[:3]])
def _(E):
    kind, dk, s, e = E.param
    f, g, _ = build(E, kind, dk, s, e, raise_on_empty=True)
    x = E.real('x')
    ends = []
    if dk != 'empty':
        ends = [p for p, on in ((f.D.start, s), (f.D.end, e)) if on]
    can = bool(ends)
    for p in ends:
        fwd = p is f.D.start if dk != 'point' else None
        if f.y(p) is None:
            can = False
    if kind == 'tangent' and can:
        if s and f.d_y(f.D.start, forward=True) is None:
            can = False
        if e and f.d_y(f.D.end, forward=False) is None:
            can = False
    o = E.call(lambda: (g.domain, g.y(x)))
    E.check('raises exactly when an end cannot be extended', o.raised == (not can), detail=repr(o.exc))


@contract(P, 'extension.regression', bound='n<=4 samples', functions=FN,
          splits=[(n, how, side) for n in (2, 3, 4) for how in ('degree', 'period') for side in ('start', 'end')])
def _(E):
    """The tangent is that of the regression over the last steps, or the last period."""
    n, how, side = E.param
    pts = E.pts('p', n, gap=1e-4)
    f = E.cp.Points(list(pts), uniform=False)
    m, c = E.real('slope'), E.real('const')
    asked = []

    def regression(domain=None, **kw):
        asked.append(domain)
        return E.cp.Line(const=c, slope=m)
    f.regression = regression
    kw = {'start': side == 'start', 'end': side == 'end'}
    if how == 'degree':
        k = E.pick('degree', list(range(1, n + 1)))
        g = E.ok('extension', f.extension, 'tangent', regression_degree=k, **kw)
    else:
        p = E.posreal('period')
        g = E.ok('extension', f.extension, 'tangent', regression_period=p, **kw)
    far = E.posreal('far')
    if side == 'end':
        end = pts[-1][0]
        x = end + far
        want = E.Interval(pts[max(0, n - 1 - k)][0], end) if how == 'degree' else E.Interval(end - p, end)
    else:
        end = pts[0][0]
        x = end - far
        want = E.Interval(end, pts[min(n - 1, k)][0]) if how == 'degree' else E.Interval(end, end + p)
    y = E.ok('y', g.y, x)
    E.check('the line of the regression', E.same(y, c + m * x))
    E.check('over the asked window', E.and_(*[E.same_interval(d, want) for d in asked]))
    E.check('one regression', len(asked) == 1)
