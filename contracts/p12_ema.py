"""C12: the EMA recurrence (induction over queries as in C10)."""
from dv.harness import contract
from .common import abs_curve
from .p03_points_eval import spec_y
from .p10_accumulator import edit, GAP

P = 'C12'
FN = ['Curve.ema', 'EMA._ema_scan', 'Scan.scan', 'Scan.y', 'Accumulator._accumulate', 'Accumulator.scanned_y']


def recurrence(E, pts, alpha=None, period=None, init=None):
    out, e, px = [], None, None
    for x, y in pts:
        if y is not None:
            if e is None:
                e = y if init is None else init(x)
            else:
                a = alpha if period is None else (x - px) / period
                e = e + a * (y - e)
        out.append((x, e))
        px = x
    return out


def build(E, src, kind, u, init=None):
    if kind == 'alpha':
        a = E.real('alpha')
        return E.ok('ema', src.ema, a, uniform=u, init=init), {'alpha': a}
    p = E.posreal('period')
    return E.ok('ema', src.ema, p, is_period=True, uniform=u, init=init), {'period': p}


@contract(P, 'ema.query', bound='n<=4 samples (alpha), n<=3 (period)', functions=FN,
          splits=[(n, u, t, k) for n in range(1, 5) for u in (True, False) for t in ('alpha', 'period')
                  for k in range(n + 1) if n < 4 or t == 'alpha'])
def _(E):
    n, u, t, k = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    src = E.cp.Points(list(pts), uniform=u)
    f, kw = build(E, src, t, u)
    want = recurrence(E, pts, **kw)
    if k:
        E.check('the recurrence', E.same(E.ok('y', f.y, pts[k - 1][0]), want[k - 1][1]))
    q = E.real('q')
    E.check('the recurrence, interpolated', E.same(E.ok('y', f.y, q), spec_y(E, want, 0, q)))
    E.check('the domain of the source', E.same_interval(f.domain, src.domain))


@contract(P, 'ema.missing', bound='n<=4 samples', functions=FN,
          splits=[(n, t, k) for n in (1, 2, 3, 4) for t in ('alpha', 'period') for k in range(16) if k < 2 ** n])
def _(E):
    """Missing samples leave the average unchanged; it starts at the first existing one."""
    n, t, k = E.param
    xs = E.xs('p', n, gap=GAP)
    pts = [(x, E.real('y%d' % i) if k >> i & 1 else None) for i, x in enumerate(xs)]
    f, kw = build(E, E.cp.Points(list(pts), uniform=False), t, False)
    want = recurrence(E, pts, **kw)
    order = E.pick('order', ['ascending', 'descending'])
    for (x, w) in (want if order == 'ascending' else want[::-1]):
        E.check('the recurrence over existing samples', E.same(E.ok('y', f.y, x), w))


@contract(P, 'ema.init', bound='n<=3 samples', functions=FN,
          splits=[(n, t, i) for n in (1, 2, 3) for t in ('alpha', 'period') for i in ('curve', 'number', 'callable')])
def _(E):
    n, t, how = E.param
    pts = E.pts('p', n, gap=GAP)
    if how == 'curve':
        init = abs_curve(E, 'init', kinds=('inf', 'finite'))
        at = init.y
    elif how == 'number':
        init = E.real('init')
        at = lambda x: init
    else:
        g = E.fn('init')
        init = at = lambda x: g(x)
    f, kw = build(E, E.cp.Points(list(pts), uniform=False), t, False, init=init)
    for (x, w) in recurrence(E, pts, init=at, **kw):
        E.check('starts with the value of the init function', E.same(E.ok('y', f.y, x), w))


@contract(P, 'ema.range', bound='n<=4 samples', functions=FN, splits=[(n, u) for n in range(1, 5) for u in (True, False)])
def _(E):
    n, u = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    a = E.real('alpha', lo=0, hi=1)
    lo, hi = E.real('lo'), E.real('hi')
    for x, y in pts:
        E.assume(lo <= y)
        E.assume(y <= hi)
    f = E.ok('ema', E.cp.Points(list(pts), uniform=u).ema, a, uniform=u)
    for x, _ in pts:
        y = E.ok('y', f.y, x)
        E.check('within the range of the samples', E.and_(E.le(lo, y), E.le(y, hi)))


@contract(P, 'ema.smma', bound='n<=4 samples, degree 2', functions=['Curve.smma', 'SMA.y'] + FN, splits=(2, 3, 4))
def _(E):
    """The smoothed average starts with the simple one."""
    n = E.param
    pts = E.pts('p', n, uniform=True, gap=GAP)
    f = E.ok('smma', E.cp.Points(list(pts)).smma, 2)
    e = (pts[0][1] + pts[1][1]) / 2
    want = [None, e]
    for x, y in pts[2:]:
        e = e + (y - e) / 2
        want.append(e)
    for (x, _), w in zip(pts, want):
        E.check('smoothed average', E.same(E.ok('y', f.y, x), w))


@contract(P, 'ema.edit', bound='n<=3 samples, one edit', functions=FN, weight=2,
          splits=[(n, u, h, k) for n in (2, 3) for u in (True, False) for h in ('append', 'replace', 'reset', 'set')
                  for k in (0, n)])
def _(E):
    n, u, h, k = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    src = E.cp.Points(list(pts), uniform=u)
    f, kw = build(E, src, 'alpha', u)
    if k:
        f.y(pts[k - 1][0])
    now = edit(E, src, pts, u, h)
    for x, w in recurrence(E, now, **kw):
        E.check('the recurrence after an edit', E.same(E.ok('y', f.y, x), w))
