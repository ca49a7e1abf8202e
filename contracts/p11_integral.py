"""C11: the integral is the exact cumulative area (induction over queries as in C10)."""
from dv.harness import contract
from .p03_points_eval import spec_y
from .p10_accumulator import edit, GAP, EDITS

P = 'C11'
FN = ['Curve.integral', 'Integral._integral_scan', 'Integral.scanned_y', 'Line.set', 'Line.partial_integration',
      'Scan.scan', 'Accumulator._accumulate']


def areas(E, pts, const, mode):
    """Cumulative area at each sample; None before the first existing one."""
    out, acc, prev = [], None, None
    for x, y in pts:
        if y is not None:
            if acc is None:
                acc = const
            if prev is not None and prev[1] is not None:
                x0, y0 = prev
                h = {0: (y0 + y) / 2, -1: y0, 1: y}[mode]
                acc = acc + h * (x - x0)
        prev = (x, y)
        out.append((x, acc))
    return out


@contract(P, 'integral.query', bound='n<=4 samples', functions=FN,
          splits=[(n, u, m, k) for n in range(1, 5) for u in (True, False) for m in (-1, 0, 1) for k in range(n + 1)])
def _(E):
    n, u, m, k = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    src = E.cp.Points(list(pts), uniform=u)
    c = E.real('const')
    f = E.ok('integral', src.integral, const=c, interpolation=m, uniform=u)
    want = areas(E, pts, c, m)
    if k:
        E.check('cumulative area', E.same(E.ok('y', f.y, pts[k - 1][0]), want[k - 1][1]))
    q = E.real('q')
    E.check('cumulative area, interpolated', E.same(E.ok('y', f.y, q), spec_y(E, want, 0, q)))
    E.check('the domain of the source', E.same_interval(f.domain, src.domain))


@contract(P, 'integral.defaults', bound='n<=3 samples', functions=FN, splits=range(1, 4))
def _(E):
    n = E.param
    pts = E.pts('p', n, uniform=True, gap=GAP)
    f = E.ok('integral', E.cp.Points(list(pts)).integral)
    i = E.pick('i', range(n))
    E.check('linear from zero', E.same(E.ok('y', f.y, pts[i][0]), areas(E, pts, 0, 0)[i][1]))


@contract(P, 'integral.missing', bound='n<=4 samples', functions=FN,
          splits=[(n, m, k) for n in (1, 2, 3, 4) for m in (-1, 0, 1) for k in range(16) if k < 2 ** n])
def _(E):
    n, m, k = E.param
    xs = E.xs('p', n, gap=GAP)
    pts = [(x, E.real('y%d' % i) if k >> i & 1 else None) for i, x in enumerate(xs)]
    c = E.real('const')
    f = E.ok('integral', E.cp.Points(list(pts), uniform=False).integral, const=c, interpolation=m, uniform=False)
    for (x, w) in areas(E, pts, c, m):
        E.check('segments with a missing end have no area', E.same(E.ok('y', f.y, x), w))


@contract(P, 'integral.additive', bound='n<=4 samples', functions=FN,
          splits=[(u, m) for u in (True, False) for m in (-1, 0, 1)])
def _(E):
    """Adding a constant shifts; splitting the series splits the area."""
    u, m = E.param
    pts = E.pts('p', 4, uniform=u, gap=GAP)
    i = E.pick('split', [1, 2])
    whole = E.cp.Points(list(pts), uniform=u).integral(interpolation=m, uniform=u)
    left = E.cp.Points(pts[:i + 1], uniform=u).integral(interpolation=m, uniform=u)
    right = E.cp.Points(pts[i:], uniform=u).integral(interpolation=m, uniform=u)
    E.check('the area of the whole is the sum of the parts',
            E.same(whole.y(pts[3][0]), left.y(pts[i][0]) + right.y(pts[3][0])))


@contract(P, 'integral.edit', bound='n<=3 samples, one edit', functions=FN, weight=2,
          splits=[(n, u, h, k) for n in (2, 3) for u in (True, False) for h in ('append', 'replace', 'reset', 'set')
                  for k in (0, n)])
def _(E):
    n, u, h, k = E.param
    pts = E.pts('p', n, uniform=u, gap=GAP)
    src = E.cp.Points(list(pts), uniform=u)
    m = E.pick('mode', [-1, 0, 1])
    f = E.ok('integral', src.integral, interpolation=m, uniform=u)
    if k:
        f.y(pts[k - 1][0])
    now = edit(E, src, pts, u, h)
    for x, w in areas(E, now, 0, m):
        E.check('cumulative area after an edit', E.same(E.ok('y', f.y, x), w))
