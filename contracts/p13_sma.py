"""C13: the simple moving average is the mean of the trailing window."""
from dv.harness import contract
from .p10_accumulator import edit, GAP

P = 'C13'
FN = ['Curve.sma', 'SMA.y', 'SMA.get_domain', 'SMA._sma_start', 'SMA._sma_end', 'SMA.offset_scan', 'Scan.scan',
      'Integral._integral_scan', 'Accumulator._accumulate']


def mean(E, pts, i, d):
    """Mean over the window of d samples ending with the i-th."""
    if i - d + 1 < 0:
        return None
    if d == 1:
        return pts[i][1]
    a = 0
    for j in range(i - d + 1, i):
        a = a + (pts[j][1] + pts[j + 1][1]) / 2 * (pts[j + 1][0] - pts[j][0])
    return a / (pts[i][0] - pts[i - d + 1][0])


def at(E, pts, d, q):
    """The mean at q, interpolated between samples; None outside the domain."""
    n = len(pts)
    for i in range(d - 1, n):
        if E.decide(q == pts[i][0]):
            return mean(E, pts, i, d)
        if i + 1 < n and E.decide(E.and_(pts[i][0] < q, q < pts[i + 1][0])):
            a, b = mean(E, pts, i, d), mean(E, pts, i + 1, d)
            return a + (b - a) * ((q - pts[i][0]) / (pts[i + 1][0] - pts[i][0]))
    return None


def build(E, src, pts, d, kind, u):
    if kind == 'degree':
        return E.ok('sma', src.sma, d, uniform=u)
    # the samples later than x - period are d samples: (d - 1) h < period <= d h
    h = pts[1][0] - pts[0][0]
    p = h * (d - 1) + E.real('more', lo=GAP)
    E.assume(p <= h * d)
    return E.ok('sma', src.sma, p, is_period=True, uniform=u)


KINDS = [(n, u, t, d) for n in range(1, 6) for u, t in ((True, 'degree'), (False, 'degree'), (True, 'period'))
         for d in (1, 2, 3) if d <= n + (t == 'degree') and not (t == 'period' and n < 2)]


@contract(P, 'sma.query', bound='n<=4 samples, windows of <=3 samples', functions=FN,
          splits=[k + (i,) for k in KINDS if k[0] <= 4 for i in range(-1, k[0])])
def _(E):
    n, u, t, d, i = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    src = E.cp.Points(list(pts), uniform=u)
    f = build(E, src, pts, d, t, u)
    if i >= 0:
        f.y(pts[i][0])
    for j in E.pick('order', [range(n), range(n - 1, -1, -1)]):
        E.check('the mean of the window', E.same(E.ok('y', f.y, pts[j][0]), mean(E, pts, j, d)))
    if n >= d:
        E.check('the domain starts where the first window ends',
                E.same_interval(f.domain, E.Interval(pts[d - 1][0], pts[-1][0])))
    else:
        E.check('no window fits', E.is_empty(f.domain))


@contract(P, 'sma.between', bound='n<=4 samples, windows of <=3 samples', functions=FN,
          splits=[k + (i,) for k in KINDS if k[0] <= 4 for i in range(-1, k[0])])
def _(E):
    n, u, t, d, i = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    f = build(E, E.cp.Points(list(pts), uniform=u), pts, d, t, u)
    if i >= 0:
        f.y(pts[i][0])
    q = E.real('q')
    E.check('interpolated between the samples', E.same(E.ok('y', f.y, q), at(E, pts, d, q)))


@contract(P, 'sma.edit', bound='n<=3 samples, degree 2, one edit', functions=FN, weight=2,
          splits=[(n, u, h, k) for n in (2, 3) for u in (True, False) for h in ('append', 'replace', 'reset', 'set')
                  for k in (0, n)])
def _(E):
    n, u, h, k = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    src = E.cp.Points(list(pts), uniform=u)
    f = E.ok('sma', src.sma, 2, uniform=u)
    if k:
        f.y(pts[k - 1][0])
    now = edit(E, src, pts, u, h)
    for j in range(len(now)):
        E.check('the mean of the window after an edit', E.same(E.ok('y', f.y, now[j][0]), mean(E, now, j, 2)))


@contract(P, 'sma.invalid', functions=['SMA.__init__'])
def _(E):
    c = E.cp.Constant(1)
    E.check('a positive degree is needed', E.raises(c.sma, E.pick('bad', [0, -1])))
    E.check('a positive period is needed', E.raises(c.sma, E.pick('badp', [0, -1, None]), is_period=True))
