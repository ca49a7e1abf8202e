"""C24: regression is the least-squares line through the samples."""
from dv.harness import contract
from .common import abs_curve

P = 'C24'
FN = ['Curve.regression']


def sampled(E, pts):
    """A curve with the given samples; records what it is asked for."""
    class Sampled(E.cp.Curve):
        def __init__(self):
            super().__init__()
            self.asked = []

        def get_domain(self):
            return E.Interval.infinite()

        def y(self, x):
            return 0.0

        def sample_points(self, domain=None, min_step=None, step=None):
            self.asked.append((domain, min_step, step))
            return list(pts)
    return Sampled()


@contract(P, 'regression.line', bound='n<=6 samples', functions=FN, splits=list(range(7)))
def _(E):
    n = E.param
    pts = E.pts('p', n, gap=1e-3)
    c = sampled(E, pts)
    line = E.ok('regression', c.regression, E.Interval(0, 1))
    if n < 2:
        E.check('no line through fewer than two samples', line is None)
        return
    E.check('a line', line is not None)
    m, k = line.slope, line.const
    if n == 2:
        E.check('through both samples', E.and_(E.same(line.y(pts[0][0]), pts[0][1]), E.same(line.y(pts[1][0]), pts[1][1])))
    if E.mode == 'symbolic':
        r = [line.y(x) - y for x, y in pts]
        E.check('the residuals cancel', E.same(sum(r), 0))
        E.check('and so do their moments', E.same(sum(x * e for (x, _), e in zip(pts, r)), 0))
        E.check('value and parameters agree', E.same(line.y(pts[0][0]), m * pts[0][0] + k))
    else:
        # the same condition, conditioned for rounding: against the centred closed form
        mx = sum(x for x, _ in pts) / n
        my = sum(y for _, y in pts) / n
        sl = sum((x - mx) * (y - my) for x, y in pts) / sum((x - mx) ** 2 for x, _ in pts)
        spread = max(abs(y - my) for _, y in pts) + 1
        for x, _ in pts:
            E.check('the residuals cancel', abs(line.y(x) - (my + sl * (x - mx))) <= 1e-5 * spread * (1 + abs(mx) / (pts[-1][0] - pts[0][0])) ** 2)


@contract(P, 'regression.optimal', bound='n<=5 samples', functions=FN, splits=[3, 4, 5])
def _(E):
    """No other line has a smaller sum of squared residuals."""
    n = E.param
    pts = E.pts('p', n, gap=1e-3)
    line = E.ok('regression', sampled(E, pts).regression)
    a, b = E.real('slope'), E.real('const')
    m, k = line.slope, line.const
    dm, dk = a - m, b - k
    if E.mode == 'symbolic':
        r = [m * x + k - y for x, y in pts]
        d = [dm * x + dk for x, _ in pts]
        s0, s1 = sum(r), sum(x * e for (x, _), e in zip(pts, r))
        best, other, more = sum(e * e for e in r), sum((e + f) * (e + f) for e, f in zip(r, d)), sum(f * f for f in d)
        cross = sum(e * f for e, f in zip(r, d))
        pre = E.zero_products('moments cancel', s1, dm) + E.zero_products('residuals cancel', s0, dk)
        E.derive('orthogonal', E.same(cross, 0), *pre, lemma=True)

        def least(*v):
            e, f = v[:n], v[n:]
            return E.implies(E.same(sum(a * b for a, b in zip(e, f)), 0),
                             E.le(sum(a * a for a in e), sum((a + b) * (a + b) for a, b in zip(e, f))))
        E.by('orthogonal deviations add up', least, *r, *d)
        E.check('optimal', E.le(best, other))
    else:
        s = lambda f: sum((f(x) - y) ** 2 for x, y in pts)
        E.check('optimal', s(lambda x: line.y(x)) <= s(lambda x: a * x + b) * (1 + 1e-6) + 1e-6 * (1 + max(y * y for _, y in pts)))


@contract(P, 'regression.missing', bound='n<=4 samples', functions=FN,
          splits=[(n, k) for n in (1, 2, 3, 4) for k in range(n)])
def _(E):
    n, k = E.param
    pts = E.pts('p', n, gap=1e-3)
    pts[k] = (pts[k][0], None)
    E.check('no line where a sample has no value', E.ok('regression', sampled(E, pts).regression) is None)


@contract(P, 'regression.samples', functions=FN)
def _(E):
    """The samples are those of the domain, at the given steps."""
    c = sampled(E, [])
    d = E.interval('d', kinds=('closed', 'finite'))
    ms, st = E.posreal('ms'), E.posreal('step')
    E.check('none', E.ok('regression', c.regression, d, min_step=ms, step=st) is None)
    E.check('asked once', len(c.asked) == 1)
    if c.asked:
        a = c.asked[0]
        E.check('over the domain', E.same_interval(a[0], d))
        E.check('at the minimum step', E.same(a[1], ms))
        E.check('at the step', E.same(a[2], st))


@contract(P, 'regression.points', bound='n<=3 points', functions=FN, splits=[2, 3])
def _(E):
    """Of a point series over a window: the points inside it."""
    n = E.param
    pts = E.pts('p', n, gap=1e-3)
    i = E.pick('i', list(range(n)))
    j = E.pick('j', list(range(i, n)))
    line = E.ok('regression', E.cp.Points(list(pts), uniform=False).regression, E.Interval(pts[i][0], pts[j][0]))
    ref = E.ok('regression', sampled(E, pts[i:j + 1]).regression)
    if j - i < 1:
        E.check('no line through fewer than two samples', line is None)
    elif j - i == 1:
        E.check('through both samples', E.and_(*[E.same(line.y(x), y) for x, y in pts[i:j + 1]]))
    elif E.mode == 'symbolic':
        r = [line.y(x) - y for x, y in pts[i:j + 1]]
        E.check('the residuals cancel', E.same(sum(r), 0))
    else:
        E.check('as of its samples', abs(line.y(pts[i][0]) - ref.y(pts[i][0])) < 1e-6 * (1 + abs(ref.y(pts[i][0]))))
