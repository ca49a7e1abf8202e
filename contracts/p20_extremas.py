"""C20: the extremas of a series against a reference.

Oracle: the samples that deviate from the reference by more than the minimum form phases
(maximal runs on one side); the extrema of a phase is its first most extreme sample, and is
confirmed once the next phase has begun.
"""
from dv.harness import contract
from .common import abs_curve
from .p03_points_eval import spec_y
from .p10_accumulator import edit, GAP

P = 'C20'
FN = ['Extremas.scanned_y', 'Extremas._extrema_scan', 'Extremas._confirm_extrema', 'Extremas.continue_scan', 'Scan.scan']
UPD = FN + ['Extremas._reset_stale_scan', 'Extremas.reset_scan', 'Extremas._remove_extrema_index', 'Scan.begin_scan_update',
            'Scan.end_scan_update']


def oracle(E, pts, ref, dev):
    """(confirmed extremas, the pending one) of the samples."""
    done, best, side = [], None, None
    for x, y in pts:
        r = ref(x)
        if y is None or r is None:
            continue
        size = E.ite(r >= 0, r, -r) * dev if dev is not None else 0
        if E.decide(y - r > size):
            s = 1
        elif E.decide(r - y > size):
            s = -1
        else:
            continue
        if s != side:
            if best is not None:
                done.append(best)
            best, side = (x, y), s
        elif E.decide(y > best[1] if s > 0 else y < best[1]):
            best = (x, y)
    return done, best


def reference(E, kind):
    if kind == 'number':
        r = E.real('r')
        return r, lambda x: r
    c = abs_curve(E, 'r', kinds=(('finite',) if kind == 'part' else ('inf',)), none=(kind == 'gaps'))
    return c, c.y


def deviation(E, kind):
    return {} if kind == 'none' else {'min_deviation': E.real('dev', lo=0)}


EVEN, UNEVEN = [0.0, 1.0, 2.0, 3.0, 4.0], [0.0, 1.0, 2.5, 3.0, 4.75]


def points(E, n, u=False):
    """Arbitrary values at an arbitrary start and fixed distances."""
    x0 = E.real('p.x0')
    return [(x0 + x, E.real('p.y%d' % i)) for i, x in enumerate((EVEN if u else UNEVEN)[:n])]


def source(E, n, u, none=False, fixed=False):
    pts = points(E, n, u) if fixed else E.pts('p', n, uniform=u, none_y=none, gap=GAP)
    return pts, E.ok('source', E.cp.Points, pts, uniform=u)


def conform(E, e, pts, want, ref=None, ask=True):
    """e behaves like the confirmed extremas."""
    if ask:
        q = E.real('q')
        v = E.ok('y', e.y, q)
        E.check('the extremas, joined by lines', E.same(v, spec_y(E, want, 0, q)))
    if not pts:
        return
    E.ok('y at the end', e.y, pts[-1][0])
    got = [tuple(p) for p in e.extremas]
    E.check('the extreme sample of each phase, once, in order', E.same(got, want))
    for a, b in zip(got, got[1:]):
        E.check('in ascending order', a[0] < b[0])
        if ref is not None:
            E.check('on alternate sides of the reference',
                    E.iff(a[1] > ref(a[0]), b[1] < ref(b[0])))
    E.check('the value at each extrema', E.and_(*[E.same(e.y(p[0]), p[1]) for p in want]))


@contract(P, 'extremas.find', bound='n<=3 samples', functions=FN, weight=2,
          splits=[(n, u, r, d) for n in range(4) for u in (True, False) for r, d in
                  (('number', 'given'), ('number', 'none'), ('curve', 'none'), ('gaps', 'none'))])
def _(E):
    n, u, r, d = E.param
    pts, src = source(E, n, u)
    R, ref = reference(E, r)
    kw = deviation(E, d)
    e = E.ok('construct', E.cp.Extremas, src, R, **kw)
    want, _ = oracle(E, pts, ref, kw.get('min_deviation'))
    conform(E, e, pts, want, ref)
    E.check('the domain of the series', E.same_interval(e.domain, src.domain))


def find(E):
    n, u, r, d = E.param
    pts, src = source(E, n, u, fixed=True)
    R, ref = reference(E, r)
    kw = deviation(E, d)
    e = E.ok('construct', E.cp.Extremas, src, R, **kw)
    want, _ = oracle(E, pts, ref, kw.get('min_deviation'))
    conform(E, e, pts, want, ref, ask=n < 5)


contract(P, 'extremas.phases', bound='n=4 samples at fixed distances', functions=FN, weight=2,
         splits=[(4, True, 'number', 'given'), (4, False, 'number', 'none'), (4, False, 'curve', 'none')])(find)
contract(P, 'extremas.phases.more', bound='n=5 samples at fixed distances', functions=FN, weight=2, tier='thorough',
         splits=[(5, u, r, d) for u in (True, False) for r, d in (('number', 'none'), ('curve', 'given'), ('part', 'none'))])(find)


@contract(P, 'extremas.missing', bound='n<=3 samples', functions=FN, splits=[(n, r) for n in (1, 2, 3) for r in ('number', 'gaps', 'part') if n < 3 or r == 'number'])
def _(E):
    """Samples without a value, or without a reference, belong to no phase."""
    n, r = E.param
    pts, src = source(E, n, False, none=True)
    R, ref = reference(E, r)
    e = E.ok('construct', E.cp.Extremas, src, R)
    want, _ = oracle(E, pts, ref, None)
    conform(E, e, pts, want, ref)


@contract(P, 'extremas.order', bound='n<=4 samples (4 at fixed distances), two queries', functions=FN, weight=2,
          splits=[(n, u, k) for n in (2, 3) for u in (True, False) for k in range(n)] + [(4, False, 1)])
def _(E):
    """What was asked before does not matter."""
    n, u, k = E.param
    pts, src = source(E, n, u, fixed=n > 3)
    R, ref = reference(E, 'number')
    e = E.ok('construct', E.cp.Extremas, src, R)
    want, _ = oracle(E, pts, ref, None)
    x = pts[k][0]
    if k + 1 < n and E.pick('between', [False, True]):
        x = (pts[k][0] + pts[k + 1][0]) / 2
    E.check('the first answer', E.same(E.ok('y', e.y, x), spec_y(E, want, 0, x)))
    conform(E, e, pts, want, ref)


@contract(P, 'extremas.sample', bound='n<=4 samples (4 at fixed distances)', functions=FN + ['Extremas.sample_points', 'Extremas.x_next', 'Scan.sample_points'],
          splits=[(n, u, k) for n in range(5) for u in (True, False) for k in (None, 0, n - 1) if k is None or n])
def _(E):
    n, u, k = E.param
    pts, src = source(E, n, u, fixed=n > 3)
    R, ref = reference(E, 'number')
    e = E.ok('construct', E.cp.Extremas, src, R)
    if k is not None:
        e.y(pts[k][0])
    want, _ = oracle(E, pts, ref, None)
    E.check('sampling gives the extremas', E.same([tuple(p) for p in E.ok('sample', e.sample_points)], want))


@contract(P, 'extremas.step', bound='n=3 samples at fixed distances', functions=['Extremas.x_next', 'Extremas.x_previous'],
          splits=[(3, u) for u in (True, False)])
def _(E):
    """Between the extremas the next and previous x are those of the neighbouring extremas."""
    n, u = E.param
    pts, src = source(E, n, u, fixed=True)
    R, ref = reference(E, 'number')
    e = E.ok('construct', E.cp.Extremas, src, R)
    want, _ = oracle(E, pts, ref, None)
    e.y(pts[-1][0])
    q, s = E.real('q'), E.real('step', lo=1e-5)
    nx, pv = E.ok('x_next', e.x_next, q, min_step=s), E.ok('x_previous', e.x_previous, q, min_step=s)
    xs = [p[0] for p in want]
    if xs and E.decide(E.and_(xs[0] <= q + s, q + s <= xs[-1])):
        w = [x for x in xs if E.decide(x >= q + s)][0]
        E.check('the next extrema', E.same(nx, w))
    else:
        E.check('the next sample', E.same(nx, src.x_next(q, min_step=s)))
    if xs and E.decide(E.and_(xs[0] <= q - s, q - s <= xs[-1])):
        w = [x for x in xs if E.decide(x <= q - s)][-1]
        E.check('the previous extrema', E.same(pv, w))
    else:
        E.check('the previous sample', E.same(pv, src.x_previous(q, min_step=s)))


@contract(P, 'extremas.append', bound='n<=4 samples at fixed distances, appended one by one', functions=UPD, weight=2,
          splits=[(n, m, asked) for n in (2, 3, 4) for m in range(n) for asked in ('last', 'first', 'no')])
def _(E):
    """Samples appended one by one, asked in between or not, as if they had always been there."""
    n, m, asked = E.param
    pts = points(E, n)
    src = E.ok('source', E.cp.Points, pts[:m], uniform=False)
    R, ref = reference(E, 'number')
    e = E.ok('construct', E.cp.Extremas, src, R, **({} if n == 4 else deviation(E, 'given')))
    for i in range(m, n):
        if asked != 'no' and i:
            e.y(pts[i - 1 if asked == 'last' else 0][0])
        src.append(pts[i])
    want, _ = oracle(E, pts, ref, e.min_deviation if n < 4 else None)
    conform(E, e, pts, want, ref, ask=n < 4)
    E.check('not left updating', E.not_(e.is_updating))


def one_edit(E):
    """After the series changes, the extremas are those of the new series."""
    n, h, k = E.param
    pts, src = source(E, n, False, fixed=True)
    R, ref = reference(E, 'number')
    e = E.ok('construct', E.cp.Extremas, src, R)
    if k is not None:
        e.y(pts[k][0])
    now = edit(E, src, pts, False, h)
    want, _ = oracle(E, now, ref, None)
    conform(E, e, now, want, ref, ask=False)
    E.check('the domain of the series', E.same_interval(e.domain, src.domain))
    E.check('not left updating', E.not_(e.is_updating))


HOW = ('append', 'append_list', 'replace', 'reset', 'set', 'clear', 'insert')
contract(P, 'extremas.edit', bound='n<=3 samples (4 where the end is removed) at fixed distances, one edit', functions=UPD, weight=3,
         splits=[(n, h, k) for n in (2, 3) for h in HOW for k in (None, n - 1) if not (n == 3 and h == 'append_list')] +
                [(4, 'reset', 3), (3, 'replace', 1)])(one_edit)
contract(P, 'extremas.edit.more', bound='n<=4 samples at fixed distances, one edit', functions=UPD, weight=3, tier='thorough',
         splits=[(3, 'append_list', 2)] + [(4, h, k) for h in ('append', 'replace', 'insert') for k in (1, 3)])(one_edit)


def two_edits(E):
    """Edits one after the other, asked in between."""
    n, a, b = E.param
    pts, src = source(E, n, False, fixed=True)
    R, ref = reference(E, 'number')
    e = E.ok('construct', E.cp.Extremas, src, R)
    e.y(pts[-1][0])
    now = edit(E, src, pts, False, a)
    if now:
        e.y(now[-1][0])
    if b == 'replace' and not now:
        E.end()
    now = edit(E, src, now, False, b, 'g')
    want, _ = oracle(E, now, ref, None)
    conform(E, e, now, want, ref, ask=False)


contract(P, 'extremas.edits', bound='n<=3 samples at fixed distances, two edits', functions=UPD, weight=2,
         splits=[(3, 'reset', 'append'), (3, 'reset', 'replace'), (2, 'replace', 'append')])(two_edits)
contract(P, 'extremas.edits.more', bound='n=3 samples at fixed distances, two edits', functions=UPD, weight=2, tier='thorough',
         splits=[(3, 'replace', 'append'), (3, 'replace', 'replace')])(two_edits)


@contract(P, 'extremas.reference', bound='n<=4 samples at fixed distances, one edit of the reference', functions=UPD, weight=2,
          splits=[(n, h, k) for n in (2, 3, 4) for h in ('value', 'replace', 'append') for k in (None, n - 1) if n < 4 or (h == 'append' or k is None)])
def _(E):
    """After the reference changes, the extremas are those against the new reference."""
    n, h, k = E.param
    pts, src = source(E, n, False, fixed=True)
    xs = [p[0] for p in pts]
    if h == 'value':
        r1, r2 = E.real('r'), E.real('s')
        R = E.cp.Constant(r1)
        ref = lambda x: r2
    else:
        m = n if h == 'replace' else n - 1
        rs = [(x, E.real('r%d' % i)) for i, x in enumerate(xs)]
        R = E.cp.Points(rs[:m], uniform=False)
    e = E.ok('construct', E.cp.Extremas, src, R)
    if k is not None:
        e.y(xs[k])
    if h == 'value':
        R.value = r2
    elif h == 'append':
        R.append(rs[-1])
        ref = lambda x: rs[[i for i in range(n) if E.decide(xs[i] == x)][0]][1]
    else:
        i = E.pick('i', range(n))
        rs[i] = (xs[i], E.real('s'))
        R.replace(rs[i])
        ref = lambda x: rs[[i for i in range(n) if E.decide(xs[i] == x)][0]][1]
    want, _ = oracle(E, pts, ref, None)
    conform(E, e, pts, want, ref, ask=False)
    E.check('not left updating', E.not_(e.is_updating))


@contract(P, 'extremas.pending', bound='n<=3 samples at fixed distances, one edit', functions=UPD,
          splits=[(n, h) for n in (2, 3) for h in ('append', 'replace', 'reset', 'set')])
def _(E):
    """What is read while a change is announced does not stay."""
    n, h = E.param
    pts, src = source(E, n, False, fixed=True)
    R, ref = reference(E, 'number')
    e = E.ok('construct', E.cp.Extremas, src, R)
    src.add_observer(begin=lambda d: e.y(pts[-1][0]))
    e.add_observer(begin=lambda d: e.y(pts[-1][0]))
    now = edit(E, src, pts, False, h)
    want, _ = oracle(E, now, ref, None)
    conform(E, e, now, want, ref, ask=False)
