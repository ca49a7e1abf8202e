from dv.harness import contract
from .common import Watch
from .p03_points_eval import spec_y

P = 'C04'
EDIT = ['Points.append', 'Points.append_list', 'Points.replace', 'Points.reset', 'Points.set',
        'Points._points_equally_spaced', 'Points._did_change_points', 'Points._domain_indexes']


def spacing_ok(E, pts):
    """All gaps of the list are equal."""
    return E.and_(*[pts[i + 1][0] - pts[i][0] == pts[1][0] - pts[0][0] for i in range(1, len(pts) - 1)])




def start(E, n, forced, mode):
    pts = E.pts('p', n, uniform=forced)
    c = E.ok('construct', E.cp.Points, pts, interpolation=mode, uniform=forced)
    # evaluated before the edit: nothing remembered may survive it
    c.domain
    w = Watch(c)
    return pts, c, w


def contains_all(E, c, w, label, xs, none_if_same=True):
    E.check(label + ': one begin and one end', w.kinds == ['begin', 'end'])
    for k, d in w.log:
        for x in xs:
            E.check(label + ': the notified interval contains every changed x', E.inside(d, x))


def verify(E, c, table, mode):
    """c behaves like the ordered table."""
    got = E.ok('sample', c.sample_points)
    E.check('exactly the points of the table, in order', E.same([tuple(p) for p in got], table))
    x = E.real('x')
    E.check('evaluates like the table', E.same(E.ok('y', c.y, x), spec_y(E, table, mode, x)))
    E.check('not left updating', E.not_(c.is_updating))
    if isinstance(got, list):
        del got[:]
        E.check('a sampled list is the caller\'s own',
                E.same([tuple(p) for p in E.ok('sample again', c.sample_points)], table))
    if table:
        d = c.domain
        E.check('domain from first to last', E.same_interval(d, E.Interval(table[0][0], table[-1][0])))
        E.check('ends', E.and_(E.same(c.first_point(), table[0]), E.same(c.last_point(), table[-1])))
    else:
        E.check('empty domain', E.is_empty(c.domain))


def rejected(E, o, c, w, table, mode):
    E.check('invalid edit is rejected', o.raised)
    E.check('rejected edit notifies nobody', w.kinds == [])
    verify(E, c, table, mode)


def finish(E, o, ok, c, w, old, new, changed, mode):
    """ok: the edit is valid; changed: the xs that it touches."""
    if not E.decide(ok):
        rejected(E, o, c, w, old, mode)
        return
    if o.raised:
        E.check('valid edit is accepted', False, detail=repr(o.exc))
        E.end()
    if changed:
        contains_all(E, c, w, 'accepted edit', changed)
    else:
        E.check('no change, no dangling notification', w.kinds in ([], ['begin', 'end']))
    verify(E, c, new, mode)


@contract(P, 'points.append', bound='n<=3 stored points', functions=EDIT,
          splits=[(n, f, how) for n in range(4) for f in (True, False) for how in ('append', 'list')])
def _(E):
    n, forced, how = E.param
    pts, c, w = start(E, n, forced, 0)
    p = (E.real('nx'), E.real('ny'))
    o = E.call(c.append, p) if how == 'append' else E.call(c.append_list, [p])
    ok = True
    if n:
        ok = p[0] > pts[-1][0]
        if forced and n > 1:
            ok = E.and_(ok, p[0] - pts[-1][0] == pts[1][0] - pts[0][0])
    finish(E, o, ok, c, w, pts, pts + [p], [p[0]], 0)


@contract(P, 'points.append_list', bound='n<=2 stored, m<=2 new points', functions=EDIT,
          splits=[(n, f, m) for n in range(3) for f in (True, False) for m in (0, 2)])
def _(E):
    n, forced, m = E.param
    pts, c, w = start(E, n, forced, 0)
    new = E.pts('q', m)
    o = E.call(c.append_list, list(new))
    ok = True
    if n and m:
        ok = new[0][0] > pts[-1][0]
    if forced and m:
        ok = E.and_(ok, E.implies(ok, spacing_ok(E, pts + new)))
    finish(E, o, ok, c, w, pts, pts + new, [q[0] for q in new], 0)


@contract(P, 'points.replace', bound='n<=3 stored points', functions=EDIT,
          splits=[(n, f, oa) for n in range(4) for f in (True, False) for oa in (True, False)])
def _(E):
    n, forced, or_append = E.param
    pts, c, w = start(E, n, forced, 0)
    p = (E.real('nx'), E.real('ny'))
    o = E.call(c.replace, p, or_append=or_append)
    new = None
    for i in range(n):
        if E.decide(p[0] == pts[i][0]):
            finish(E, o, True, c, w, pts, pts[:i] + [p] + pts[i + 1:], [p[0]], 0)
            return
        if i + 1 < n and E.decide(E.and_(pts[i][0] < p[0], p[0] < pts[i + 1][0])):
            finish(E, o, not forced, c, w, pts, pts[:i + 1] + [p] + pts[i + 1:], [p[0]], 0)
            return
    ok = or_append
    if n and or_append:
        ok = p[0] > pts[-1][0]
        if forced and n > 1:
            ok = E.and_(ok, p[0] - pts[-1][0] == pts[1][0] - pts[0][0])
    finish(E, o, ok, c, w, pts, pts + [p], [p[0]], 0)


@contract(P, 'points.reset', bound='n<=3 stored points', functions=EDIT,
          splits=[(n, f, k) for n in range(4) for f in (True, False) for k in ('all', 'finite', 'point', 'ninf', 'pinf')])
def _(E):
    n, forced, k = E.param
    pts, c, w = start(E, n, forced, 0)
    if k == 'all':
        o = E.call(c.reset)
        new = []
        gone = pts
    else:
        d = E.interval('D', kinds=(k,))
        o = E.call(c.reset, d)
        keep = [not E.decide(E.inside(d, p[0])) for p in pts]
        new = [p for p, s in zip(pts, keep) if s]
        gone = [p for p, s in zip(pts, keep) if not s]
    ok = True
    if forced and n and new:
        # a uniform series keeps its spacing
        if len(new) > 1:
            ok = E.and_(*[new[i + 1][0] - new[i][0] == pts[1][0] - pts[0][0] for i in range(len(new) - 1)])
    finish(E, o, ok, c, w, pts, new, [p[0] for p in gone], 0)


@contract(P, 'points.set', bound='n<=2 stored, m<=3 new points', functions=EDIT,
          splits=[(n, f, m) for n in range(3) for f in (True, False) for m in range(4)])
def _(E):
    n, forced, m = E.param
    pts, c, w = start(E, n, forced, 0)
    new = E.pts('q', m)
    given = list(new)
    o = E.call(c.set, given)
    ok = True
    if forced and m > 1:
        ok = spacing_ok(E, new)
        if n > 1:
            ok = E.and_(ok, new[1][0] - new[0][0] == pts[1][0] - pts[0][0])
    finish(E, o, ok, c, w, pts, new, [p[0] for p in pts + new], 0)
    E.check('the given list is not changed', E.same(given, new))
    if not o.raised and m < 3:
        q = (E.real('ax'), E.real('ay'))
        if m:
            E.assume(q[0] > new[-1][0])
            if forced and m > 1:
                E.assume(q[0] - new[-1][0] == new[1][0] - new[0][0])
        E.ok('append', c.append, q)
        E.check('the given list is not changed by a later edit', E.same(given, new))
        del given[:]
        E.check('and its later changes do not reach the series',
                E.same([tuple(p) for p in E.ok('sample', c.sample_points)], new + [q]))


@contract(P, 'points.edits', bound='two edits of series of n<=2 points', functions=EDIT,
          splits=[(n, f, a, b, m) for n, m in ((0, 0), (1, -1), (1, 1), (2, 0)) for f in (False, True)
                  for a in ('append', 'replace', 'reset') for b in ('append', 'replace')])
def _(E):
    """Two edits in a row, evaluated in between or not: only the table matters."""
    n, forced, a, b, mode = E.param
    pts, c, w = start(E, n, forced, mode)
    table = list(pts)
    for k, op in enumerate((a, b)):
        if op == 'append':
            q = (E.real('ax%d' % k), E.real('ay%d' % k))
            if table:
                E.assume(q[0] > table[-1][0])
                if forced and len(table) > 1:
                    E.assume(q[0] - table[-1][0] == table[1][0] - table[0][0])
            E.ok('append', c.append, q)
            table.append(q)
        elif op == 'replace':
            if not table:
                continue
            i = E.pick('i%d' % k, list(range(len(table))))
            q = (table[i][0], E.real('ry%d' % k))
            E.ok('replace', c.replace, q)
            table[i] = q
        else:
            if not table:
                continue
            i = E.pick('z%d' % k, [0, len(table) - 1])
            E.ok('reset', c.reset, E.Interval.point(table[i][0]))
            del table[i]
        if k == 0 and n < 2:
            t = E.real('t%d' % k)
            E.check('evaluates like the table in between', E.same(c.y(t), spec_y(E, table, mode, t)))
    verify(E, c, table, mode)
