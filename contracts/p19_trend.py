"""C19: trend lines."""
from dv.harness import contract
from .p07_derived import change, points

P = 'C19'
LINE = ['_line_y', '_line_x', '_line_intersection']
TOL = ['_is_value_within_tolerance', '_is_point_on_line', '_is_coincident_points', 'TrendLine._is_value_within_tolerance',
       'TrendLine._value_tolerance_min', 'TrendLine._value_tolerance_max']
REPORT = ['Trend.upper', 'Trend.lower', 'Trend.lines', 'Trend._scanned_upper', 'Trend._scanned_lower', 'Trend._line_filter', 'TrendLine.is_valid',
          'TrendLine.width', 'TrendLine.is_ready']
SCAN = REPORT + ['Trend.continue_scan', 'Trend._trend_scan', 'Trend._append_point_and_validate', 'Trend._try_fork_line', 'Trend._create_line',
                 'TrendLine.did_append_point', 'TrendLine.set_trend_with_boundary_points', 'TrendLine.update_trend', 'TrendLine.update_interval',
                 'TrendLine.update_points_of_interest']
ZERO = 1e-14


def module(E):
    import curvepy.trend as t
    return t


def point(E, name):
    return (E.real(name + '.x'), E.real(name + '.y'))


def on_line(E, p1, p2, x, y):
    """(x, y) is on the line through p1 and p2, without dividing."""
    if E.mode == 'symbolic':
        return E.same((y - p1[1]) * (p2[0] - p1[0]), (p2[1] - p1[1]) * (x - p1[0]))
    s = abs(p2[0] - p1[0]) + abs(p2[1] - p1[1]) + abs(x - p1[0]) + abs(y - p1[1]) + abs(p1[0]) + abs(p1[1])
    return abs((y - p1[1]) * (p2[0] - p1[0]) - (p2[1] - p1[1]) * (x - p1[0])) <= 1e-7 * (1 + s * s)


def a_line(E, name):
    """Two points, in general position, vertical or horizontal."""
    p1, p2 = point(E, name + '1'), point(E, name + '2')
    kind = E.pick(name + '.kind', ['free', 'vertical', 'horizontal'])
    if kind == 'vertical':
        return p1, (p1[0], p2[1])
    if kind == 'horizontal':
        return p1, (p2[0], p1[1])
    return p1, p2


@contract(P, 'trend.line_y', functions=LINE)
def _(E):
    t = module(E)
    p1, p2 = a_line(E, 'p')
    x = E.pick('at', [E.real('x'), p1[0], p2[0]])
    y = E.ok('_line_y', t._line_y, (p1, p2), x)
    if E.decide(p1[0] == p2[0]):
        E.check('a vertical line has a value at its x only', E.iff(y is not None, x == p1[0]))
        if y is not None:
            E.check('one of its points', E.same(y, p1[1]))
        return
    E.check('a value', y is not None)
    E.check('on the line', on_line(E, p1, p2, x, y))
    E.check('through the first point', E.same(E.ok('_line_y', t._line_y, (p1, p2), p1[0]), p1[1]))
    E.check('through the second point', E.same(E.ok('_line_y', t._line_y, (p1, p2), p2[0]), p2[1]))


@contract(P, 'trend.line_x', functions=LINE)
def _(E):
    t = module(E)
    p1, p2 = a_line(E, 'p')
    y = E.pick('at', [E.real('y'), p1[1], p2[1]])
    x = E.ok('_line_x', t._line_x, (p1, p2), y)
    if E.decide(p1[0] == p2[0]):
        E.check('the x of a vertical line', x is not None and E.decide(E.same(x, p1[0])))
    elif E.decide(p1[1] == p2[1]):
        E.check('a horizontal line has an x at its y only', E.iff(x is not None, y == p1[1]))
        if x is not None:
            E.check('on the line', on_line(E, p1, p2, x, y))
    else:
        E.check('an x', x is not None)
        E.check('on the line', on_line(E, p1, p2, x, y))


@contract(P, 'trend.intersection', functions=LINE)
def _(E):
    t = module(E)
    p1, p2 = a_line(E, 'p')
    q1, q2 = a_line(E, 'q')
    E.assume(E.or_(p1[0] != p2[0], p1[1] != p2[1]))
    E.assume(E.or_(q1[0] != q2[0], q1[1] != q2[1]))
    r = E.ok('_line_intersection', t._line_intersection, (p1, p2), (q1, q2))
    cross = (p2[0] - p1[0]) * (q2[1] - q1[1]) - (p2[1] - p1[1]) * (q2[0] - q1[0])
    if E.mode == 'concrete' and 0 < abs(cross) < 1e-3:
        return
    E.check('none exactly for parallel lines', E.iff(r is None, cross == 0))
    if r is not None:
        meets(E, 'on the first line', r, p1, p2, q1, q2)
        meets(E, 'on the second line', r, q1, q2, p1, p2)


def meets(E, label, r, p1, p2, q1, q2):
    """The point r is on the line through p1 and p2; by Cramer's rule, in steps for the prover."""
    if E.mode != 'symbolic':
        E.check(label, on_line(E, p1, p2, r[0], r[1]))
        return
    claim = on_line(E, p1, p2, r[0], r[1])

    def parts(a, b, c, d, e, f, g, h):
        dx, dy, ex, ey = c - a, d - b, g - e, h - f
        div = dx * ey - dy * ex
        m, n = a * d - b * c, e * h - f * g
        return div, n * dx - m * ex, n * dy - m * ey          # x * div, y * div

    def identity(*v):
        div, nx, ny = parts(*v)
        return E.same((ny - v[1] * div) * (v[2] - v[0]) - (v[3] - v[1]) * (nx - v[0] * div), 0)

    def factor(x, y, x1, y1, dx, dy, div):
        return E.same((y * div - y1 * div) * dx - dy * (x * div - x1 * div), div * ((y - y1) * dx - dy * (x - x1)))
    v = (p1[0], p1[1], p2[0], p2[1], q1[0], q1[1], q2[0], q2[1])
    div, nx, ny = parts(*v)
    w = (r[0], r[1], p1[0], p1[1], p2[0] - p1[0], p2[1] - p1[1], div)
    E.by('the numerators are on the line', identity, *v)
    E.by('the quotients are a multiple', factor, *w)
    E.by('a product is zero', lambda d, z: E.implies(E.and_(d != 0, E.same(d * z, 0)), E.same(z, 0)), div,
         (r[1] - p1[1]) * (p2[0] - p1[0]) - (p2[1] - p1[1]) * (r[0] - p1[0]))
    E.derive(label, claim, div != 0, E.same(r[0] * div, nx), E.same(r[1] * div, ny), identity(*v), factor(*w))


def tolerances(E):
    kind = E.pick('tol', ['none', 'abs', 'rel', 'both'])
    return (E.real('rel', lo=0, hi=1) if kind in ('rel', 'both') else None), (E.real('abs', lo=0) if kind in ('abs', 'both') else None)


def size(E, v):
    return E.ite(v >= 0, v, -v)


def near(E, y, ref, rel, ab, slack=0):
    """y deviates from ref by at most both of the given tolerances."""
    d = size(E, y - ref)
    return E.and_(*([d <= ab + slack] if ab is not None else []) +
                  ([d <= rel * size(E, ref) + slack] if rel is not None else []))


def accepts(E, label, got, y, ref, rel, ab):
    if E.mode == 'symbolic':
        E.check(label, E.iff(got, near(E, y, ref, rel, ab)))
    else:
        s = 1e-9 * (1 + abs(y) + abs(ref))
        E.check(label, (not got or near(E, y, ref, rel, ab, s)) and (got or not near(E, y, ref, rel, ab, -s)))


@contract(P, 'trend.tolerance', functions=TOL)
def _(E):
    t = module(E)
    rel, ab = tolerances(E)
    y, ref = E.real('y'), E.real('ref')
    E.check('nothing is not near', not t._is_value_within_tolerance(None, ref, rel, ab) and not t._is_value_within_tolerance(y, None, rel, ab))
    # the relative tolerance is not applied to values that are practically zero
    E.assume(size(E, y) > ZERO)
    E.assume(size(E, ref) > ZERO)
    accepts(E, 'exactly within the tolerances', E.ok('tolerance', t._is_value_within_tolerance, y, ref, rel, ab), y, ref, rel, ab)


@contract(P, 'trend.on_line', functions=TOL)
def _(E):
    t = module(E)
    rel, ab = tolerances(E)
    p1, p2 = point(E, 'p1'), point(E, 'p2')
    x, y = point(E, 'q')
    ref = E.ok('_line_y', t._line_y, (p1, p2), x)
    got = E.ok('on line', t._is_point_on_line, (p1, p2), (x, y), rel, ab)
    if ref is None:
        E.check('off a vertical line', not got)
        return
    E.assume(size(E, y) > ZERO)
    E.assume(size(E, ref) > ZERO)
    accepts(E, 'exactly within the tolerances', got, y, ref, rel, ab)
    mid = E.ok('coincident', t._is_coincident_points, [p1, (x, y), p2], y_tol_rel=rel, y_tol_abs=ab)
    E.check('the middle point is near the line through the others', E.iff(mid, got))


@contract(P, 'trend.line_tolerance', functions=TOL)
def _(E):
    t = module(E)
    rel, ab = tolerances(E)
    line = E.ok('line', t.TrendLine, 1, y_tol_rel=rel, y_tol_abs=ab)
    y, ref = E.real('y'), E.real('ref')
    E.check('nothing is not near', not line._is_value_within_tolerance(None, ref) and not line._is_value_within_tolerance(y, None))
    lo, hi = E.ok('min', line._value_tolerance_min, ref), E.ok('max', line._value_tolerance_max, ref)
    E.check('around the value', E.and_(E.le(lo, ref), E.le(ref, hi)))
    E.check('symmetric', E.same(hi - ref, ref - lo))
    E.assume(size(E, ref) > ZERO)
    got = E.ok('tolerance', line._is_value_within_tolerance, y, ref)
    if rel is None and ab is None:
        E.check('without tolerance: the value itself', E.iff(got, y == ref))
    else:
        accepts(E, 'exactly within the tolerances', got, y, ref, rel, ab)


@contract(P, 'trend.insort', bound='n<=5 points', functions=['_insort_point_left', '_insort_points_left'],
          splits=[(n, r, w) for n in range(6) for r in (True, False) for w in ('one', 'list')])
def _(E):
    t = module(E)
    n, once, way = E.param
    xs = [E.real('x%d' % i) for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        E.assume(a <= b)
    old = [(x, 'old%d' % i) for i, x in enumerate(xs)]
    a = list(old)
    x = E.real('x')
    new = [(x, 'new')]
    if way == 'one':
        E.ok('insort', t._insort_point_left, a, new[0], no_repeat=once)
    else:
        if n < 4:
            new.append((E.real('x\''), 'new\''))
        E.ok('insort', t._insort_points_left, a, list(new), no_repeat=once)
    E.check('sorted', E.and_(*[E.le(p[0], q[0]) for p, q in zip(a, a[1:])]))
    E.check('what was there stays, in its order', [p for p in a if p in old] == old)
    have = list(xs)
    for p in new:
        repeated = once and E.decide(E.or_(*[p[0] == v for v in have]))
        E.check('inserted unless it repeats a point', (p in a) == (not repeated))
        if not repeated:
            have.append(p[0])
    E.check('nothing else', len(a) == len(have))
    if new[0] in a and len(new) == 1:
        i = a.index(new[0])
        E.check('left of the points at the same x', E.and_(*[p[0] < x for p in a[:i]]))


def some_line(E, name, n, ready, upper, **kw):
    """A line in an arbitrary state: n ascending trend points and any search interval."""
    t = module(E)
    line = t.TrendLine(kw.get('min_width'), is_upper_trend=upper, min_points=kw.get('min_points'),
                       min_point_distance=kw.get('min_point_distance', 0), search_length_rel=2, search_length_int_rel=2, y_tol_abs=1)
    xs = [E.real('%s.x%d' % (name, i)) for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        E.assume(a < b)
    line.trend_points = [(x, E.real('%s.y%d' % (name, i))) for i, x in enumerate(xs)]
    line._line = [line.trend_points[0], line.trend_points[-1]] if ready and n >= 2 else None
    line.search_interval = E.interval(name + '.S', kinds=('finite', 'empty'))
    return line


def qualifies(E, line, x, min_width, min_points, dist):
    """Two or more points apart form a line; it is wide enough, passes enough points that keep
    their distance, and its search interval contains x."""
    pts = line.trend_points
    if line._line is None or len(pts) < min_points:
        return False
    c = [pts[-1][0] - pts[0][0] >= min_width]
    apart = sum(1 for p, q in zip(pts, pts[1:]) if E.decide(q[0] - p[0] >= dist))
    if apart + 1 < min_points:
        return False
    if x is not None:
        c.append(E.inside(line.search_interval, x))
    return E.decide(E.and_(*c))


@contract(P, 'trend.report', bound='a line of <=4 trend points, in an arbitrary state', functions=REPORT,
          splits=[(n, r, m) for n in range(5) for r in (True, False) for m in (2, 3) if n or not r])
def _(E):
    """A line of arbitrary state is reported exactly if it qualifies."""
    n, ready, m = E.param
    w, d = E.real('w', lo=0), E.real('d', lo=0)
    src = E.ok('source', E.cp.Points, [])
    tr = E.ok('trend', E.cp.Trend, src, w, min_points=m, min_point_distance=d)
    upper = E.pick('side', [True, False])
    line = some_line(E, 'l', n, ready, upper, min_width=w, min_points=m, min_point_distance=d)
    level = E.pick('level', [0, 1])
    for k in range(level):
        tr.nested_upper_lines.append([])
        tr.nested_lower_lines.append([])
    (tr.nested_upper_lines if upper else tr.nested_lower_lines)[level].append(line)
    x = E.pick('at', [E.real('x'), None])
    got = {True: E.ok('upper', tr.upper, x), False: E.ok('lower', tr.lower, x)}
    E.check('not on the other side', len(got[not upper]) == 0)
    want = qualifies(E, line, x, w, m, d)
    E.check('reported exactly if it qualifies', [id(l) for l in got[upper]] == ([id(line)] if want else []))
    E.check('among all lines exactly if it qualifies somewhere', [id(l) for l in tr.lines] ==
            ([id(line)] if qualifies(E, line, None, w, m, d) else []))
    E.check('valid exactly if it qualifies', E.iff(line.is_valid, qualifies(E, line, None, w, m, d)))


@contract(P, 'trend.several', bound='three lines of 2 trend points', functions=REPORT)
def _(E):
    w = E.real('w', lo=0)
    tr = E.ok('trend', E.cp.Trend, E.cp.Points([]), w, min_points=2)
    ls = [some_line(E, 'l%d' % i, 2, True, True, min_width=w, min_points=2) for i in range(3)]
    tr.nested_upper_lines = [[ls[0]], [ls[1], ls[2]]]
    x = E.real('x')
    want = [l for l in ls if qualifies(E, l, x, w, 2, 0)]
    E.check('the qualifying ones', [id(l) for l in E.ok('upper', tr.upper, x)] == [id(l) for l in want])
    E.check('none below', E.ok('lower', tr.lower, x) == [])
    E.check('the value of a trend: all of them', [id(l) for l in tr.scanned_y(x)] == [id(l) for l in want])


@contract(P, 'trend.create', functions=['Trend._create_line', 'Trend._try_fork_line'])
def _(E):
    """Tracked lines take over the parameters of the trend."""
    kw = {'min_points': E.pick('m', [2, 3, 4]), 'min_point_distance': E.real('d', lo=0), 'search_length_rel': E.real('s'),
          'search_length_int_rel': E.real('si'), 'x_tol_rel': E.real('xr'), 'x_tol_abs': E.real('xa'), 'y_tol_rel': E.real('yr'),
          'y_tol_abs': E.real('ya')}
    w = E.real('w')
    tr = E.ok('trend', E.cp.Trend, E.cp.Points([]), w, **kw)
    upper = E.pick('side', [True, False])
    line = E.ok('create', tr._create_line, is_upper_trend=upper)
    E.check('side', line.is_upper_trend == upper and line.is_lower_trend == (not upper))
    E.check('minimum width', E.same(line.min_width, w))
    for k, v in sorted(kw.items()):
        E.check(k, E.same(getattr(line, k), v))


def a_trend(E, src, w, m, d, tol):
    return E.ok('trend', E.cp.Trend, src, w, min_points=m, min_point_distance=d, y_tol_abs=tol)


def state(lines):
    return [(l.is_upper_trend, [tuple(p) for p in l.trend_points], [tuple(p) for p in l], l.search_interval) for l in lines]


def same_lines(E, label, a, b):
    a, b = state(a), state(b)
    E.check(label + ': as many lines', len(a) == len(b))
    for l, k in zip(a, b):
        E.check(label + ': the same side', l[0] == k[0])
        E.check(label + ': the same trend points', len(l[1]) == len(k[1]) and E.decide(E.same(l[1], k[1])))
        E.check(label + ': the same line', E.same(l[2], k[2]))
        E.check(label + ': searched as far', E.same_interval(l[3], k[3]))


@contract(P, 'trend.whole', bound='n<=4 samples at fixed distances', functions=SCAN, weight=2,
          splits=[(n, m, d, w, tol) for n in (0, 1, 2, 3) for m in (2, 3) for d in (0, 2) for w in (1, 2.5) for tol in (0, 0.25)] +
          [(4, m, d, 1, 0.25) for m, d in ((2, 0), (2, 1.25))])
def _(E):
    whole(E)


def whole(E):
    """What is reported for a series qualifies, and is formed by its samples."""
    n, m, d, w, tol = E.param
    pts = points(E, n)
    tr = a_trend(E, E.ok('source', E.cp.Points, pts, uniform=False), w, m, d, tol)
    x = E.real('x') if n < 4 else E.pick('at', [1.0, 3.75, 7.0])
    for upper in (True, False):
        got = E.ok('lines', tr.upper if upper else tr.lower, x)
        for l in got:
            E.check('on the asked side', l.is_upper_trend == upper and l.is_lower_trend != upper)
            E.check('qualifies', qualifies(E, l, x, w, m, d))
            E.check('formed by samples, in their order', [p for p in pts if p in l.trend_points] == l.trend_points)
            p, q = l
            E.check('from its first to its last point', E.and_(E.same(p[0], l.trend_points[0][0]), E.same(q[0], l.trend_points[-1][0])))
            E.check('searched from its first point', E.and_(E.le(l.trend_points[0][0], x)))
            if len(l.trend_points) == 2:
                E.check('through both points', E.same([tuple(p), tuple(q)], l.trend_points))
            else:
                r = [l.y(a) - b for a, b in l.trend_points]
                E.check('fitted to its points', E.same(sum(r), 0))
                E.check('fitted to their moments', E.same(sum(a * e for (a, _), e in zip(l.trend_points, r)), 0))


@contract(P, 'trend.whole.more', bound='n<=4 samples at fixed distances', functions=SCAN, weight=4, tier='thorough',
          splits=[(4, 3, 0, 1, tol) for tol in (0.25, 0)] + [(4, m, d, 2.5, 0.25) for m in (2, 3) for d in (0, 1.25)])
def _(E):
    whole(E)


@contract(P, 'trend.edit', bound='n<=4 samples at fixed distances, one edit', functions=SCAN + ['Trend.reset_scan', 'Scan.begin_scan_update'],
          weight=2, splits=[(n, h, k) for n in (2, 3) for h in ('append', 'replace', 'remove', 'reset', 'insert', 'set', 'clear') for k in ('all', 'part') if (n, h) != (3, 'insert')])
def _(E):
    """After an edit of the source a trend, read to the end, has the lines of a new trend."""
    n, how, asked = E.param
    pts = points(E, n)
    src = E.ok('source', E.cp.Points, pts, uniform=False)
    tr = a_trend(E, src, 1, 2, 0, 0.25)
    E.ok('upper', tr.upper, pts[-1 if asked == 'all' else 0][0])
    now = change(E, src, pts, how)
    if not now:
        E.check('no lines', tr.lines == [])
        return
    new = a_trend(E, E.ok('source', E.cp.Points, now, uniform=False), 1, 2, 0, 0.25)
    end = now[-1][0]
    same_lines(E, 'upper at the end', E.ok('upper', tr.upper, end), E.ok('upper', new.upper, end))
    same_lines(E, 'all', tr.lines, new.lines)
