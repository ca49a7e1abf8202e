"""C14: trailing windows see exactly the last samples."""
from dv.harness import contract
from .p10_accumulator import edit, GAP

P = 'C14'
FN = ['Curve.accumulator_map', 'AccumulatorMap._accumulator_map_scan', 'AccumulatorMap._accumulator_map',
      'Curve.sample_points_from_x', 'Points.sample_points', 'Scan.scan']


def window(E, pts, i, degree=None, period=None):
    """The samples of the window ending with the i-th, newest first."""
    if degree is not None:
        return [pts[j][1] for j in range(i, max(-1, i - degree), -1)]
    return [pts[j][1] for j in range(i, -1, -1) if E.decide(pts[j][0] >= pts[i][0] - period)]


CASES = [(n, u, d) for n in range(1, 5) for u in (True, False) for d in (1, 2, 3, 5, 'period') if d == 'period' or d <= n + 1]


def build(E, src, tfm, d, u, **kw):
    if d == 'period':
        p = E.posreal('period')
        return E.ok('trailing map', src.accumulator_map, tfm, p, is_period=True, uniform=u, **kw), {'period': p}
    return E.ok('trailing map', src.accumulator_map, tfm, d, uniform=u, **kw), {'degree': d}


@contract(P, 'trailing.window', bound='n<=4 samples, degree<=3 or any period', functions=FN,
          splits=[c + (a, k) for c in CASES for a in (1, 2) for k in range(c[0] + 1)])
def _(E):
    n, u, d, arity, k = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    log = []
    f = E.fn('window', arity=1)

    def with_x(x, ys):
        log.append((x, list(ys)))
        return f(x)

    def without(ys):
        log.append((None, list(ys)))
        return f(float(len(log)))
    m, kw = build(E, E.cp.Points(list(pts), uniform=u), with_x if arity == 2 else without, d, u)
    if k:
        m.y(pts[k - 1][0])
    i = E.pick('i', range(n))
    y = E.ok('y', m.y, pts[i][0])
    E.check('the value is the function\'s', E.same(y, f(pts[i][0] if arity == 2 else float(i + 1))))
    E.check('each window once', len(log) == max(i + 1, k))
    for j, (x, ys) in enumerate(log):
        if arity == 2:
            E.check('the x of the sample', E.same(x, pts[j][0]))
        E.check('exactly the samples of the window, newest first', E.same(ys, window(E, pts, j, **kw)))


@contract(P, 'trailing.minmax', bound='n<=4 samples, degree<=3 or any period', functions=FN + ['Curve.trailing_min', 'Curve.trailing_max'],
          splits=[c + (w,) for c in CASES for w in ('min', 'max')])
def _(E):
    n, u, d, which = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    src = E.cp.Points(list(pts), uniform=u)
    make = src.trailing_min if which == 'min' else src.trailing_max
    if d == 'period':
        p = E.posreal('period')
        t, kw = E.ok('trailing', make, p, is_period=True, uniform=u), {'period': p}
    else:
        t, kw = E.ok('trailing', make, d, uniform=u), {'degree': d}
    for i in E.pick('order', [range(n), range(n - 1, -1, -1)]):
        y = E.ok('y', t.y, pts[i][0])
        w = window(E, pts, i, **kw)
        E.check('one of the samples of the window', E.or_(*[E.same(y, v) for v in w]))
        E.check('the extreme of the window', E.and_(*[E.le(y, v) if which == 'min' else E.le(v, y) for v in w]))


@contract(P, 'trailing.interpolation', bound='n<=3 samples', functions=FN,
          splits=[(n, u, m) for n in (1, 2, 3) for u in (True, False) for m in (-1, 0, 1)])
def _(E):
    from .p03_points_eval import spec_y
    n, u, m = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    f = E.fn('window', arity=1)
    t = E.ok('trailing map', E.cp.Points(list(pts), uniform=u).accumulator_map, lambda x, ys: f(x), 2, interpolation=m, uniform=u)
    q = E.real('q')
    E.check('interpolated as asked', E.same(E.ok('y', t.y, q), spec_y(E, [(x, f(x)) for x, _ in pts], m, q)))


@contract(P, 'trailing.edit', bound='n<=3 samples, one edit', functions=FN, weight=2,
          splits=[(n, u, h, k, d) for n in (2, 3) for u in (True, False) for h in ('append', 'replace', 'reset', 'set')
                  for k in (0, n) for d in (2, 'period')])
def _(E):
    n, u, h, k, d = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    src = E.cp.Points(list(pts), uniform=u)
    got = {}

    def tfm(x, ys):
        got['w'] = list(ys)
        return x
    m, kw = build(E, src, tfm, d, u)
    if k:
        m.y(pts[k - 1][0])
    now = edit(E, src, pts, u, h)
    m2, _ = E.ok('fresh', src.accumulator_map, lambda x, ys: x, 2, uniform=u), 0
    for i in range(len(now)):
        got.clear()
        m.y(now[i][0])
        if got:
            E.check('the window after an edit', E.same(got['w'], window(E, now, i, **kw)))
    E.check('the domain after an edit', E.same_interval(m.domain, src.domain))


@contract(P, 'trailing.invalid', functions=['AccumulatorMap.__init__'])
def _(E):
    c = E.cp.Constant(1)
    E.check('a positive degree is needed', E.raises(c.trailing_min, E.pick('bad', [0, -1])))
    E.check('a positive period is needed', E.raises(c.trailing_max, E.pick('badp', [0, -1, None]), is_period=True))
