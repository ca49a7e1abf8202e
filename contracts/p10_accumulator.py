"""C10: accumulation is the left fold over the source's samples.

By induction over the history of queries: every reachable state of an accumulator holds
the folds of a prefix of the samples.  The contracts start from each such state (reached
through the real code by a query at the k-th sample) and show that an arbitrary query
returns the fold and leads to a state of the same kind, folding the missing samples only.
"""
from dv.harness import contract
from .common import NONE
from .p03_points_eval import spec_y

P = 'C10'
SCAN = ['Scan.y', 'Scan.scan', 'Scan.init_scan', 'Scan.continue_scan', 'Accumulator._accumulate',
        'Accumulator.scanned_y', 'Accumulator.x_next', 'Accumulator.x_previous', 'Points.append', 'Points.y']
GAP = 1e-4


def folding(E, log):
    """An arbitrary accumulating function; records its arguments."""
    f = E.fn('fold', arity=3)

    def tfm(x, y, acc):
        log.append((x, y, acc))
        return f(x, NONE if y is None else y, NONE if acc is None else acc)

    def folds(pts):
        out, acc = [], None
        for x, y in pts:
            acc = f(x, NONE if y is None else y, NONE if acc is None else acc)
            out.append((x, acc))
        return out
    return tfm, folds


def source(E, n, u, none=False):
    pts = E.pts('p', n, uniform=u, none_y=none, gap=GAP)
    return pts, E.ok('source', E.cp.Points, pts, uniform=u)


def log_is(E, label, log, pts, folded):
    E.check(label, len(log) == len(pts) and E.and_(*[
        E.and_(E.same(l[0], p[0]), E.same(l[1], p[1]), E.same(l[2], folded[i - 1][1] if i else None))
        for i, (l, p) in enumerate(zip(log, pts))]))


@contract(P, 'accumulator.query', bound='n<=4 samples', functions=SCAN,
          splits=[(n, u, m, k) for n in range(5) for u in (True, False) for m in (-1, 0, 1) for k in range(n + 1)])
def _(E):
    n, u, m, k = E.param
    pts, src = source(E, n, u)
    log = []
    tfm, folds = folding(E, log)
    a = E.ok('construct', E.cp.Accumulator, src, tfm, interpolation=m, uniform=u)
    want = folds(pts)
    if k:
        E.check('the fold at a sample', E.same(E.ok('y', a.y, pts[k - 1][0]), want[k - 1][1]))
        log_is(E, 'the samples up to it were folded once, in order', log, pts[:k], want)
    q = E.real('q')
    E.check('the fold, interpolated', E.same(E.ok('y', a.y, q), spec_y(E, want, m, q)))
    log_is(E, 'each sample was folded at most once, in order', log, pts[:len(log)], want)
    i = sum(1 for p in pts if E.decide(p[0] < q))
    if n and E.decide(E.and_(pts[0][0] <= q, q <= pts[-1][0])):
        E.check('the samples before x were folded', len(log) >= i)
    E.check('the domain of the source', E.same_interval(a.domain, src.domain))


@contract(P, 'accumulator.missing', bound='n<=3 samples', functions=SCAN,
          splits=[(n, u) for n in (2, 3) for u in (True, False)])
def _(E):
    """Missing samples are passed to the function as None."""
    n, u = E.param
    pts, src = source(E, n, u, none=True)
    log = []
    tfm, folds = folding(E, log)
    a = E.ok('construct', E.cp.Accumulator, src, tfm, uniform=u)
    want = folds(pts)
    E.check('the fold of all samples', E.same(E.ok('y', a.y, pts[-1][0]), want[-1][1]))
    log_is(E, 'every sample was folded once, in order', log, pts, want)


@contract(P, 'accumulator.sample', bound='n<=4 samples', functions=SCAN + ['Scan.sample_points'],
          splits=[(n, u, k) for n in range(5) for u in (True, False) for k in range(n + 1)])
def _(E):
    n, u, k = E.param
    pts, src = source(E, n, u)
    log = []
    tfm, folds = folding(E, log)
    a = E.ok('construct', E.cp.Accumulator, src, tfm, uniform=u)
    want = folds(pts)
    if k:
        a.y(pts[k - 1][0])
    got = E.ok('sample', a.sample_points)
    E.check('all folds at the samples', E.same([tuple(p) for p in got], want))
    log_is(E, 'every sample was folded once, in order', log, pts, want)


@contract(P, 'accumulator.step', bound='n<=4 samples', functions=SCAN,
          splits=[(n, u, k) for n in range(1, 5) for u in (True, False) for k in range(n + 1)])
def _(E):
    """Stepping does not depend on what has been accumulated."""
    n, u, k = E.param
    pts, src = source(E, n, u)
    tfm, folds = folding(E, [])
    a = E.ok('construct', E.cp.Accumulator, src, tfm, uniform=u)
    if k:
        a.y(pts[k - 1][0])
    q = E.real('q')
    E.check('x_next of the source', E.same(E.ok('x_next', a.x_next, q), src.x_next(q)))
    if not k or E.decide(q <= pts[k - 1][0]):
        E.check('x_previous of the source', E.same(E.ok('x_previous', a.x_previous, q), src.x_previous(q)))


EDITS = ('append', 'append_list', 'replace', 'reset', 'set', 'clear')


def edit(E, src, pts, u, how, name='e'):
    """Applies an edit to a point series; returns the points it should then hold."""
    n = len(pts)
    xs = [p[0] for p in pts]

    def new(i):
        if u and n > 1:
            return (xs[0] + (xs[1] - xs[0]) * (n + i), E.real('%s.y%d' % (name, i)))
        last = new.last if i else (xs[-1] if n else E.real(name + '.x'))
        if i == 1 and u:
            x = last + (last - xs[-1]) if n else last + E.real(name + '.h', lo=GAP, lo_open=True)
        else:
            x = last + E.real('%s.dx%d' % (name, i), lo=GAP, lo_open=True)
        new.last = x
        return (x, E.real('%s.y%d' % (name, i)))
    if how == 'append':
        p = new(0)
        src.append(p)
        return pts + [p]
    if how == 'append_list':
        ps = [new(0), new(1)]
        src.append_list(list(ps))
        return pts + ps
    if how == 'replace':
        i = E.pick(name + '.i', range(n))
        p = (xs[i], E.real(name + '.y'))
        src.replace(p)
        return pts[:i] + [p] + pts[i + 1:]
    if how == 'insert':
        i = E.pick(name + '.i', range(n - 1))
        x = E.real(name + '.x')
        E.assume(x > xs[i] + GAP)
        E.assume(x < xs[i + 1] - GAP)
        p = (x, E.real(name + '.y'))
        src.replace(p)
        return pts[:i + 1] + [p] + pts[i + 1:]
    if how == 'reset':
        i = E.pick(name + '.i', range(n))
        src.reset(E.Interval(xs[i], xs[-1]))
        return pts[:i]
    if how == 'clear':
        src.reset()
        return []
    if how == 'set':
        ps = E.pts(name, 2, gap=GAP)
        if u and n > 1:
            # a uniform series keeps its spacing
            ps[1] = (ps[0][0] + (xs[1] - xs[0]), ps[1][1])
        src.set(list(ps))
        return ps
    raise Exception(how)


@contract(P, 'accumulator.edit', bound='n<=3 samples, one edit', weight=3,
          functions=SCAN + ['Scan.begin_scan_update', 'Scan.end_scan_update', 'Accumulator.reset_scan', 'Accumulator.begin_update'],
          splits=[(n, u, h, k) for n in range(0, 4) for u in (True, False) for h in EDITS + ('insert',)
                  for k in range(n + 1)
                  if not (n == 0 and h in ('replace', 'reset', 'clear')) and not (h == 'insert' and (u or n < 2))])
def _(E):
    """After the source changes, the values are those of a new accumulator."""
    n, u, h, k = E.param
    pts, src = source(E, n, u)
    log = []
    tfm, folds = folding(E, log)
    a = E.ok('construct', E.cp.Accumulator, src, tfm, uniform=u)
    if k:
        a.y(pts[k - 1][0])
    now = edit(E, src, pts, u, h)
    want = folds(now)
    q = E.real('q')
    E.check('the value of a new accumulator', E.same(E.ok('y', a.y, q), spec_y(E, want, 0, q)))
    E.check('the domain of the source', E.same_interval(a.domain, src.domain))
    E.check('not left updating', E.not_(a.is_updating))
