"""Series of any length: the contracts of C03, C04 and C05 without a bound on the number of points.

The loops of the functions under contract are cut at the invariants below (dv/seq.py).
"""
from dv.harness import contract
from .common import Watch

F = ['Points.__init__', 'Points.set', 'Points._points_equally_spaced', 'Points._did_change_points', 'Points.get_domain']
KINDS = ('uniform', 'irregular', 'loose')
STATES = KINDS + ('unflagged',)


def bisect_inv(E):
    """lo..hi encloses the place of x."""
    def inv(v):
        a, n = v.a, E.len(v.a)
        lo, hi = v.lo, v.hi
        return [('bounds', E.and_(0 <= lo, lo <= hi, hi <= n)),
                ('left of lo', E.implies(lo > 0, elem(a, lo - 1)[0] < v.x)),
                ('from hi on', E.implies(hi < n, elem(a, hi)[0] >= v.x)),
                ('terminates', hi - lo, 'decreases')]
    return inv


def elem(a, i):
    """The i-th point; i may be out of range (the value is then arbitrary)."""
    from dv import seq
    return seq.lift(a).at(seq.zi(i))


def spaced_inv(E):
    """The points so far are on the grid."""
    def inv(v):
        first, k = v.first_i, v.k
        return [('on the grid', E.forall(v.new_points, lambda j: E.implies(
            E.and_(j >= first, j < first + k), elem(v.new_points, j)[0] == v.start + v.interval * (j - first + 1))))]
    return inv


def loops(E):
    E.cut('points._bisect_points', bisect_inv(E))
    E.cut('points.Points._points_equally_spaced', spaced_inv(E))


def build(E, kind, mode=0, lo=0, none_y=False):
    """uniform     declared uniform, and it is
    loose       not declared uniform, but evenly spaced
    irregular   neither
    unflagged   evenly spaced, but taken for irregular (as after an insertion): the class invariant
                asks only that a series taken for even is even"""
    T = E.series('p', uniform=kind != 'irregular', lo=3 if kind == 'irregular' else lo, none_y=none_y)
    if kind == 'irregular':
        w = E.index('w', T, lo=1, hi=1)
        E.assume(T[w + 1][0] - T[w][0] != T[1][0] - T[0][0])
    c = E.ok('construct', E.cp.Points, T, interpolation=mode, uniform=kind == 'uniform')
    if kind == 'unflagged':
        if not hasattr(c, '_is_equally_spaced'):
            E.unsupported('the state of a series has changed')
        c._is_equally_spaced = False
    return T, c


def check_y(E, T, c, mode, x):
    """y(x) is the value of the table, for any entry k of it."""
    n = E.len(T)
    y = E.ok('y', c.y, x)
    if not E.decide(n > 0):
        E.check('an empty series has no value', y is None)
        return
    k = E.index('k', T)
    E.check('no value before the first point', E.implies(x < T[0][0], y is None))
    E.check('no value after the last point', E.implies(x > T[n - 1][0], y is None))
    if E.decide(x == T[k][0]):
        E.check('a stored x has its stored y', E.same(y, T[k][1]))
    if E.decide(k + 1 < n):
        x0, x1 = T[k][0], T[k + 1][0]
        if E.decide(E.and_(x0 < x, x < x1)):
            y0, y1 = T[k][1], T[k + 1][1]
            if mode:
                want = y0 if mode == -1 else y1
            else:
                want = None if y0 is None or y1 is None else y0 + (y1 - y0) * ((x - x0) / (x1 - x0))
            E.check('between two points the value is interpolated', E.same(y, want))


@contract('C03', 'series.y', functions=F + ['Points.y', 'Points.x_index', '_bisect_points'],
          splits=[(k, m, none) for k in STATES for m in (-1, 0, 1) for none in (False, True)])
def _(E):
    kind, mode, none = E.param
    loops(E)
    T, c = build(E, kind, mode, none_y=none)
    check_y(E, T, c, mode, E.real('x'))


# ---------------------------------------------------------------- C05

NAV = F + ['Points.x_next', 'Points.x_previous', 'Points.x_index', '_bisect_points']


def place(E, T, kind, name):
    """An arbitrary x; on an even series in units of its spacing."""
    if kind == 'irregular' or not E.decide(E.len(T) > 1):
        return E.real(name)
    return T[0][0] + (T[1][0] - T[0][0]) * E.real(name + '.q')


@contract('C05', 'series.next', functions=NAV, splits=[(k, s) for k in STATES for s in ('given', 'default', 'infinite')])
def _(E):
    kind, step = E.param
    loops(E)
    T, c = build(E, kind)
    n = E.len(T)
    if step == 'infinite':
        import math
        some = E.decide(n > 0)
        E.check('the first point follows minus infinity', E.same(E.ok('x_next', c.x_next, -math.inf), T[0][0] if some else None))
        E.check('the last point precedes infinity', E.same(E.ok('x_previous', c.x_previous, math.inf), T[n - 1][0] if some else None))
        return
    x = place(E, T, kind, 'x')
    if step == 'given':
        s = E.posreal('step')
        r = E.ok('x_next', c.x_next, x, min_step=s)
        l = E.ok('x_previous', c.x_previous, x, min_step=s)
    else:
        s = 1e-5
        r, l = E.ok('x_next', c.x_next, x), E.ok('x_previous', c.x_previous, x)
    check_nav(E, T, x, s, r, l)


def check_nav(E, T, x, s, r, l):
    n = E.len(T)
    if not E.decide(n > 0):
        E.check('an empty series has no neighbours', r is None and l is None)
        return
    k = E.index('k', T)
    far, near = T[k][0] >= x + s, T[k][0] <= x - s
    if r is None:
        E.check('no stored x is a step after x', E.not_(far))
    else:
        E.check('x_next is a stored x', E.stored(T, r))
        E.check('x_next is at least a step away', r >= x + s)
        E.check('x_next is the least such', E.implies(far, r <= T[k][0]))
    if l is None:
        E.check('no stored x is a step before x', E.not_(near))
    else:
        E.check('x_previous is a stored x', E.stored(T, l))
        E.check('x_previous is at least a step away', l <= x - s)
        E.check('x_previous is the greatest such', E.implies(near, l >= T[k][0]))


SAMPLE = F + ['Points.sample_points', 'Points._domain_indexes', 'Points.x_index', '_bisect_points']


def below(E, d):
    return lambda x: E.or_(x < d.start, E.and_(x == d.start, d.start_open))


def above(E, d):
    return lambda x: E.or_(x > d.end, E.and_(x == d.end, d.end_open))


def indexes_inv(E):
    def first(v):
        i, n, T = v.i, v.points_len, v.self._points
        return [('bounds', E.and_(0 <= i, i <= n)),
                ('all before are left of the domain', E.implies(i > 0, below(E, v.domain)(elem(T, i - 1)[0])))]

    def last(v):
        i, n, T = v.i, v.points_len, v.self._points
        return [('bounds', E.and_(-1 <= i, i < n)),
                ('all after are right of the domain', E.implies(i + 1 < n, above(E, v.domain)(elem(T, i + 1)[0])))]
    return first, last


def interval(E, T, kind, name, k):
    """An arbitrary interval of one kind; on an even series its ends are drawn in units of the spacing."""
    I = E.Interval
    import math
    if k == 'empty':
        return I.empty()
    if k == 'inf':
        return I.infinite()
    if k == 'point':
        return I.point(place(E, T, kind, name + '.at'))
    if k == 'ninf':
        return I(-math.inf, place(E, T, kind, name + '.b'), start_open=True, end_open=E.bool(name + '.eo'))
    if k == 'pinf':
        return I(place(E, T, kind, name + '.a'), math.inf, start_open=E.bool(name + '.so'), end_open=True)
    a, b = place(E, T, kind, name + '.a'), place(E, T, kind, name + '.b')
    E.assume(a < b)
    return I(a, b, start_open=k[0] == '(', end_open=k[1] == ')')


FINITE = ('[]', '[)', '(]', '()')


@contract('C05', 'series.sample', functions=SAMPLE,
          splits=[(k, d, h) for k in STATES for d in ('none', 'empty', 'point', 'ninf', 'pinf', 'inf') + FINITE for h in ('plain', 'fine')])
def _(E):
    kind, k, how = E.param
    loops(E)
    E.cut('points.Points._domain_indexes', *indexes_inv(E))
    T, c = build(E, kind)
    n = E.len(T)
    d = None if k == 'none' else interval(E, T, kind, 'D', k)
    kw = {}
    if how == 'fine':
        kw['min_step'] = E.posreal('step')
        E.assume(n > 1)
        E.assume(kw['min_step'] <= (T[n - 1][0] - T[0][0]) / (n - 1))
    got = E.ok('sample', c.sample_points, domain=d, **kw)
    if k == 'empty':
        want = []
    elif d is None:
        want = T
    else:
        a, b = E.split(T, below(E, d), above(E, d))
        want = T[a:b]
    E.same_points('exactly the stored points inside, in order', got, want)
    got.append((0.0, 0.0))
    E.check('the sample is a copy', E.same(E.len(c.sample_points()), n))


# ---------------------------------------------------------------- C04

EDIT = SAMPLE + ['Points.append', 'Points.append_list', 'Points.replace', 'Points.reset', 'Points.y', 'Points.x_next', 'Points.x_previous']


WHAT = ('table', 'value', 'steps')


def start(E, kind):
    loops(E)
    E.cut('points.Points._domain_indexes', *indexes_inv(E))
    T, c = build(E, kind)
    c.domain
    return T, c, Watch(c)


def verify(E, c, table, kind, before=None):
    """c holds exactly the table, and evaluates and navigates by it."""
    n = E.len(table)
    some = E.decide(n > 0)
    what = E.param[-1]
    x = E.real('x')
    if what == 'table':
        E.same_points('exactly the points of the table, in order', E.ok('sample', c.sample_points), table)
        E.check('not left updating', E.not_(c.is_updating))
        if not some:
            E.check('empty domain', E.is_empty(c.domain))
            return
        E.check('domain from first to last', E.same_interval(c.domain, E.Interval(table[0][0], table[n - 1][0])))
        if E.contract != 'series.append':
            invariant(E, c, table, before)
            return
        first, last = E.ok('first point', c.first_point), E.ok('last point', c.last_point)
        E.check('ends', E.and_(E.same(first, table[0]), E.same(last, table[n - 1])))
    elif what == 'value':
        if some:
            check_y(E, table, c, 0, x)
    elif what == 'steps':
        s = E.posreal('step')
        check_nav(E, table, x, s, E.ok('x_next', c.x_next, x, min_step=s), E.ok('x_previous', c.x_previous, x, min_step=s))


def invariant(E, c, table, before=None):
    """The class invariant on which C03 and C05 rest (series.y, series.next and series.sample hold for every
    series in this state): the mean spacing, and even spacing where the series says so."""
    n = E.len(table)
    if E.decide(n > 1):
        E.require('class invariant: the interval is the mean spacing', E.same(c.interval, (table[n - 1][0] - table[0][0]) / (n - 1)))
        if E.decide(c.is_uniform):
            held = E.ok('sample', c.sample_points)
            E.lemma('the last point', held[n - 1][0] == table[n - 1][0])
            if before is not None:
                # the mean spacing is the spacing before
                t, m = table[n - 1][0] - table[0][0], n - 1
                E.lemma('as wide as so many spacings', t == before * m)
                E.lemma('the mean spacing', c.interval * m == t)
                E.by('a quotient', lambda q, t, m, i: E.implies(E.and_(m > 0, q * m == t, t == i * m), q == i), c.interval, t, m, before)
            j = E.index('even', table)
            E.lemma('a point', held[j][0] == table[j][0])
            E.require('class invariant: evenly spaced', table[j][0] == table[0][0] + c.interval * j)
    else:
        E.require('class invariant: no interval', c.interval is None)


def finish(E, o, ok, c, w, old, new, changed, kind, before=None):
    """changed: a predicate of the xs that the edit touches, or a list of them"""
    if not E.decide(ok):
        E.check('invalid edit is rejected', o.raised)
        E.check('rejected edit notifies nobody', w.kinds == [])
        verify(E, c, old, kind)
        return
    if o.raised:
        E.check('valid edit is accepted', False, detail=repr(o.exc))
        E.end()
    if E.param[-1] != 'table':
        pass
    elif changed:
        E.check('accepted edit: one begin and one end', w.kinds == ['begin', 'end'])
        for _, d in w.log:
            for x in changed:
                E.check('the notified interval contains every changed x', E.inside(d, x))
    else:
        E.check('no change, no dangling notification', w.kinds in ([], ['begin', 'end']))
    verify(E, c, new, kind, before)


@contract('C04', 'series.append', functions=EDIT, splits=[(k, h, v) for k in KINDS for h in ('append', 'list') for v in WHAT])
def _(E):
    kind, how, _ = E.param
    T, c, w = start(E, kind)
    n = E.len(T)
    p = (place(E, T, kind, 'nx'), E.real('ny'))
    o = E.call(c.append, p) if how == 'append' else E.call(c.append_list, [p])
    ok = True
    if E.decide(n > 0):
        ok = p[0] > T[n - 1][0]
        if kind == 'uniform' and E.decide(n > 1):
            ok = E.and_(ok, p[0] - T[n - 1][0] == T[1][0] - T[0][0])
    finish(E, o, ok, c, w, T, T + [p], [p[0]], kind)


@contract('C04', 'series.replace', functions=EDIT, splits=[(k, a, 'table') for k in KINDS for a in (True, False)])
def _(E):
    kind, or_append, _ = E.param
    T, c, w = start(E, kind)
    n = E.len(T)
    p = (place(E, T, kind, 'nx'), E.real('ny'))
    a, b = E.split(T, lambda x: x < p[0], lambda x: x > p[0])
    o = E.call(c.replace, p, or_append=or_append)
    if E.decide(a < b):
        finish(E, o, True, c, w, T, T[:a] + [p] + T[b:], [p[0]], kind)
    elif E.decide(E.and_(a > 0, a < n)):
        finish(E, o, kind != 'uniform', c, w, T, T[:a] + [p] + T[a:], [p[0]], kind)
    else:
        ok = or_append
        if or_append and E.decide(n > 0):
            ok = a == n
            if kind == 'uniform' and E.decide(n > 1):
                ok = E.and_(ok, p[0] - T[n - 1][0] == T[1][0] - T[0][0])
        finish(E, o, ok, c, w, T, T + [p], [p[0]], kind)


GONE = ('none', 'start', 'end', 'middle')    # which points go: all cases


@contract('C04', 'series.reset', functions=EDIT, splits=(
    [(k, d, '', 'table') for k in KINDS for d in ('all', 'point', 'ninf', 'pinf', 'inf', 'empty')]
    + [(k, d, g, 'table') for k in KINDS for d in FINITE for g in GONE]))
def _(E):
    kind, k, which, _ = E.param
    T, c, w = start(E, kind)
    n = E.len(T)
    before = c.interval
    if k == 'all':
        a, b = 0, n
        o = E.call(c.reset)
    else:
        d = interval(E, T, kind, 'D', k)
        a, b = (0, 0) if k == 'empty' else E.split(T, below(E, d), above(E, d))
        if which:
            E.assume({'none': a >= b, 'start': E.and_(a == 0, a < b), 'end': E.and_(a > 0, a < b, b == n), 'middle': E.and_(a > 0, a < b, b < n)}[which])
        o = E.call(c.reset, d)
    gone = E.decide(a < b)
    ok = True
    if gone and kind == 'uniform':
        # a declared spacing does not admit gaps
        ok = E.or_(a == 0, b == n)
    changed = []
    if gone:
        j = E.index('gone', T)
        E.assume(E.and_(a <= j, j < b))
        changed = [T[j][0]]
    finish(E, o, ok, c, w, T, T[:a] + T[b:] if gone else T, changed, kind, before)


def spacing_of(E, T, Q):
    """Are all gaps of T followed by Q equal?  Both are evenly spaced."""
    n, m = E.len(T), E.len(Q)
    if not E.decide(n > 0) or not E.decide(m > 0):
        return True
    gap = Q[0][0] - T[n - 1][0]
    ok = True
    if E.decide(n > 1):
        ok = E.and_(ok, gap == T[1][0] - T[0][0])
    if E.decide(m > 1):
        ok = E.and_(ok, gap == Q[1][0] - Q[0][0])
    return ok


@contract('C04', 'series.append_list', functions=EDIT, splits=[(k, q, 'table') for k in KINDS for q in ('even', 'uneven')])
def _(E):
    kind, new, _ = E.param
    T, c, w = start(E, kind)
    n = E.len(T)
    Q = E.series('q', uniform=new == 'even', lo=3 if new == 'uneven' else 0)
    if new == 'uneven':
        v = E.index('v', Q, lo=1, hi=1)
        E.assume(Q[v + 1][0] - Q[v][0] != Q[1][0] - Q[0][0])
    m = E.len(Q)
    before = c.interval
    o = E.call(c.append_list, Q)
    ok = True
    if E.decide(m > 0):
        if E.decide(n > 0):
            ok = Q[0][0] > T[n - 1][0]
        if kind == 'uniform':
            ok = E.and_(ok, E.implies(ok, spacing_of(E, T, Q) if new == 'even' else False))
    changed = []
    if E.decide(m > 0):
        changed = [Q[E.index('new', Q)][0]]
    finish(E, o, ok, c, w, T, T + Q, changed, kind, before)


@contract('C04', 'series.set', functions=EDIT, splits=[(k, q, 'table') for k in KINDS for q in ('even', 'uneven')])
def _(E):
    kind, new, _ = E.param
    T, c, w = start(E, kind)
    n = E.len(T)
    Q = E.series('q', uniform=new == 'even', lo=3 if new == 'uneven' else 0)
    if new == 'uneven':
        v = E.index('v', Q, lo=1, hi=1)
        E.assume(Q[v + 1][0] - Q[v][0] != Q[1][0] - Q[0][0])
    m = E.len(Q)
    before = c.interval
    o = E.call(c.set, Q)
    ok = True
    if kind == 'uniform':
        ok = new == 'even'
        if ok and E.decide(E.and_(n > 1, m > 1)):
            # the declared spacing stays
            ok = Q[1][0] - Q[0][0] == T[1][0] - T[0][0]
    changed = []
    if E.decide(n > 0):
        changed.append(T[E.index('old', T)][0])
    if E.decide(m > 0):
        changed.append(Q[E.index('new', Q)][0])
    finish(E, o, ok, c, w, T, Q, changed, kind, before)
    E.same_points('the given list is not changed', Q, Q[:])
