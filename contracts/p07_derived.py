"""C07: a derived curve is, after any edit of its source, what a newly derived one would be.

The oracle is the definition: the same derivation, applied to the edited source.  By
induction over the history, a curve whose state agrees with a newly derived one agrees again
after the next edit, whatever was read before, during or after it; the contracts start from
every such state a series of the stated size can be in.
"""
import math

from dv.harness import contract
from .common import Watch

P = 'C07'
UPD = ['Curve.begin_update', 'Curve.end_update', 'Scan.begin_scan_update', 'Scan.end_scan_update', 'Scan._reset_stale_scan',
       'Accumulator.reset_scan', 'Accumulator.begin_update', 'Offset.begin_offset_update', 'Offset.end_offset_update',
       'Extension.begin_extension_update', 'Extension.end_extension_update', 'Curve.domain', 'Scan.scan']


def halves(E, v):
    t = E.real('v.t')
    return lambda c: E.cp.Piecewise([c, E.cp.Constant(v), c.map(lambda y: None if y is None else -y)],
                                    [E.Interval.open_closed(-math.inf, t), E.Interval.open_closed(t, t + 1), E.Interval.open(t + 1, math.inf)])


def derivations(E, name):
    """-> a function deriving a curve from a curve."""
    cp = E.cp
    C = cp.Curve
    if name in ('map', 'accumulate'):
        f = E.fn('f', arity=2)
        n = E.fn('f.none')
    if name == 'map':
        return lambda c: c.map(lambda x, y: n(x) if y is None else f(x, y))
    if name == 'add':
        v = E.real('v')
        return lambda c: c.add(v)
    if name == 'max':
        return lambda c: C.max(c, E_half(c))
    if name == 'first':
        v = E.real('v')
        return lambda c: C.first(c, v)
    if name == 'diamond':
        return lambda c: C.subtract_many([c, c.map(lambda y: None if y is None else y * 2)])
    if name == 'offset':
        v = E.real('v')
        return lambda c: c.offset(v)
    if name == 'lag':
        v = E.real('v')
        return lambda c: c.subtract(c.offset(v))
    if name == 'piecewise':
        return halves(E, E.real('v'))
    if name == 'accumulate':
        g = E.fn('g', arity=3)
        return lambda c: cp.Accumulator(c, lambda x, y, acc: g(x, -1 if y is None else y, -1 if acc is None else acc), uniform=False)
    if name == 'integral':
        return lambda c: c.integral(uniform=False)
    if name == 'ema':
        a = E.real('alpha', lo=0, hi=1)
        return lambda c: c.ema(a, is_period=False, uniform=False)
    if name == 'ema.period':
        a = E.posreal('period')
        return lambda c: c.ema(a, is_period=True, uniform=False)
    if name == 'sma':
        return lambda c: c.sma(2, is_period=False, uniform=False)
    if name == 'sma.period':
        return lambda c: c.sma(2, is_period=True, uniform=False)
    if name == 'trailing':
        return lambda c: c.trailing_max(2, uniform=False)
    if name == 'trailing.period':
        return lambda c: c.trailing_min(1.5, is_period=True, uniform=False)
    if name == 'ema of map':
        a = E.real('alpha', lo=0, hi=1)
        return lambda c: c.map(lambda y: None if y is None else -y).ema(a, is_period=False, uniform=False)
    if name == 'map of integral':
        return lambda c: c.integral(uniform=False).map(lambda y: None if y is None else -y)
    if name == 'over average':
        a = E.real('alpha', lo=0, hi=1)
        return lambda c: c.subtract(c.ema(a, is_period=False, uniform=False))
    if name == 'offset of extension':
        return lambda c: c.extension('constant', start=True, end=True).offset(1)
    kind, side = name.split('.')
    kw = {'start': side != 'end', 'end': side != 'start'}
    if kind == 'sin':
        kw['period'] = E.posreal('period')
    return lambda c: c.extension(kind, **kw)


def E_half(c):
    return c.map(lambda y: None if y is None else y / 2)


PLAIN = ('map', 'add', 'max', 'first', 'diamond', 'offset', 'lag', 'piecewise')
SCANS = ('accumulate', 'integral', 'ema', 'ema.period', 'sma', 'sma.period', 'trailing', 'trailing.period',
         'ema of map', 'map of integral', 'over average')
EXT = ('constant.both', 'constant.end', 'tangent.both', 'tangent.start', 'sin.end', 'offset of extension')
ALL = PLAIN + SCANS + EXT
EDITS = ('append', 'append_list', 'replace', 'insert', 'reset', 'remove', 'set', 'clear')


XS = [0.0, 1.0, 2.5, 3.0, 4.75]


def points(E, n, moving=False):
    """Arbitrary values at fixed distances, from a fixed or an arbitrary start."""
    x0 = E.real('p.x0') if moving else 1.0
    return [(x0 + x, E.real('p.y%d' % i)) for i, x in enumerate(XS[:n])]


def change(E, src, pts, how, name='e'):
    """Applies an edit to the series; returns the points it should then hold."""
    n = len(pts)
    xs = [p[0] for p in pts]
    x0 = xs[0] if n else 1.0
    y, z = E.real(name + '.y'), E.real(name + '.z')
    if how == 'append':
        p = (xs[-1] + 1.25 if n else 1.0, y)
        src.append(p)
        return pts + [p]
    if how == 'append_list':
        x = xs[-1] if n else 1.0
        ps = [(x + 0.5, y), (x + 2, z)]
        src.append_list(list(ps))
        return pts + ps
    if how == 'replace':
        i = E.pick(name + '.i', range(n))
        p = (xs[i], y)
        src.replace(p)
        return pts[:i] + [p] + pts[i + 1:]
    if how == 'insert':
        i = E.pick(name + '.i', range(n - 1))
        p = (xs[i] + 0.25, y)
        src.replace(p)
        return pts[:i + 1] + [p] + pts[i + 1:]
    if how == 'reset':
        i = E.pick(name + '.i', range(n))
        src.reset(E.Interval(xs[i], xs[-1]))
        return pts[:i]
    if how == 'remove':
        i = E.pick(name + '.i', range(n))
        src.reset(E.Interval.point(xs[i]))
        return pts[:i] + pts[i + 1:]
    if how == 'clear':
        src.reset()
        return []
    at = x0 + E.pick(name + '.at', [-3.0, 0.0, 0.5, 6.0])
    ps = [(at, y), (at + 1, z)]
    src.set(list(ps))
    return ps


def agree(E, what, d, fresh, x):
    E.check(what + ': the domain of a newly derived curve', E.same_interval(d.domain, fresh.domain))
    a, b = E.call(d.y, x), E.call(fresh.y, x)
    E.check(what + ': fails only where a newly derived curve does', E.iff(a.raised, b.raised), detail=repr(a.exc)[:200])
    if not b.raised:
        E.check(what + ': the value of a newly derived curve', E.same(a.value, b.value))


def heard(E, d, w):
    E.check('observers hear a begin first and an end last', len(w.kinds) >= 2 and w.kinds[0] == 'begin' and w.kinds[-1] == 'end')
    E.check('not left updating', E.not_(d.is_updating))


def derived(E, n, name, how, asked):
    pts = points(E, n)
    src = E.ok('source', E.cp.Points, pts, uniform=False)
    make = derivations(E, name)
    d = E.ok('derive', make, src)
    w = Watch(d)
    if asked == 'domain':
        d.domain
    elif asked != 'nothing' and pts:
        i = {'all': n - 1, 'part': min(1, n - 1)}[asked]
        E.call(d.y, pts[i][0])
        E.call(d.y, pts[i][0] + (0.25 if asked == 'part' else 2))
        d.domain
    now = change(E, src, pts, how)
    x = E.real('x')
    agree(E, 'after the edit', d, make(src), x)
    if now != pts:
        heard(E, d, w)
    return d, src, now, make


def sizes(names, edits, asked, ns=(2,)):
    return [(n, d, h, a) for n in ns for d in names for h in edits for a in asked
            if not (n == 0 and h not in ('append', 'set')) and not (n == 0 and a != 'domain') and not (n < 2 and h == 'insert')]


@contract(P, 'derived.plain', bound='n=2 samples at fixed distances, one edit', functions=UPD,
          splits=sizes(PLAIN, EDITS, ('part',)) + sizes(PLAIN, ('append',), ('domain',), (0,)))
def _(E):
    derived(E, *E.param)


@contract(P, 'derived.scans', bound='n<=3 samples at fixed distances, one edit', functions=UPD, weight=2,
          splits=sizes(SCANS, EDITS, ('all', 'part')) + sizes(SCANS, ('replace', 'reset', 'append'), ('all', 'part'), (3,)) +
          sizes(SCANS, ('append', 'set'), ('domain',), (0,)) + sizes(SCANS, ('append', 'replace'), ('all',), (1,)))
def _(E):
    derived(E, *E.param)


@contract(P, 'derived.extensions', bound='n<=2 samples at fixed distances, one edit', functions=UPD, weight=2,
          splits=sizes(EXT, EDITS, ('all', 'domain')) + sizes(EXT, ('append',), ('domain',), (0,)) + sizes(EXT, ('append', 'replace', 'clear'), ('all',), (1,)))
def _(E):
    derived(E, *E.param)


@contract(P, 'derived.reading', bound='n=2 samples at fixed distances, one edit', functions=UPD, weight=2,
          splits=[(d, h, who) for d in ALL for h in ('append', 'replace', 'reset', 'set') for who in ('source', 'derived')])
def _(E):
    """Observers that read the derived curve while the change is announced leave nothing stale
    behind, and those told that it is complete read the new values."""
    name, how, who = E.param
    pts = points(E, 2)
    src = E.ok('source', E.cp.Points, pts, uniform=False)
    make = derivations(E, name)
    d = E.ok('derive', make, src)
    at = pts[-1][0]
    late = []

    def begin():
        d.domain
        E.call(d.y, at)

    def end():
        late.append((d.domain, E.call(d.y, at)))
    (src if who == 'source' else d).add_observer(begin=begin, end=end)
    w = Watch(d)
    now = change(E, src, pts, how)
    fresh = make(src)
    agree(E, 'after the edit', d, fresh, E.real('x'))
    heard(E, d, w)
    f = E.call(fresh.y, at)
    E.check('the end was announced', len(late) >= 1)
    dom, v = late[-1]
    E.check('on completion: the domain of a newly derived curve', E.same_interval(dom, fresh.domain))
    E.check('on completion: the value of a newly derived curve', v.raised == f.raised and (f.raised or E.decide(E.same(v.value, f.value))))


@contract(P, 'derived.twice', bound='n=2 samples at fixed distances, two edits', functions=UPD, weight=2,
          splits=[(d, a, b) for d in ALL for a, b in (('append', 'replace'), ('reset', 'append'), ('clear', 'set'), ('replace', 'append'))])
def _(E):
    """Edits one after the other, read in between."""
    name, a, b = E.param
    pts = points(E, 2)
    src = E.ok('source', E.cp.Points, pts, uniform=False)
    make = derivations(E, name)
    d = E.ok('derive', make, src)
    d.domain
    E.call(d.y, pts[-1][0])
    w = Watch(d)
    now = change(E, src, pts, a)
    if now:
        E.call(d.y, now[-1][0])
    d.domain
    if b == 'replace' and not now:
        E.end()
    change(E, src, now, b, 'g')
    agree(E, 'after the edits', d, make(src), E.real('x'))
    heard(E, d, w)


def other_source(E, kind):
    """-> (curve, edit)"""
    cp = E.cp
    if kind == 'constant':
        c = cp.Constant(E.real('c'))

        def go():
            c.value = E.real('c2')
        return c, go
    if kind == 'line':
        c = cp.Line(const=E.real('c'), slope=E.real('s'))
        return c, lambda: c.set(p1=(E.real('px'), E.real('py')), slope=E.real('s2'))
    if kind == 'sin':
        c = cp.Sin(amplitude=E.real('a'), period=2)
        return c, lambda: c.set(amplitude=E.real('a2'), period=4, phase=E.real('ph'))
    f, g = E.fn('y1'), E.fn('y2')
    state = [f]
    c = cp.Generic(lambda x: state[0](x), domain=E.interval('D', kinds=('finite',)))

    def go():
        dom = E.interval('U', kinds=('finite', 'inf'))
        c.begin_update(dom)
        state[0] = g
        c.end_update(dom)
    return c, go


@contract(P, 'derived.other', functions=UPD,
          splits=[(k, d) for k in ('constant', 'line', 'sin', 'generic') for d in PLAIN + ('constant.both', 'tangent.end')])
def _(E):
    """Sources other than series."""
    kind, name = E.param
    src, go = other_source(E, kind)
    make = derivations(E, name)
    d = E.ok('derive', make, src)
    d.domain
    t = E.real('t')
    E.call(d.y, t)
    w = Watch(d)
    go()
    x = E.pick('at', [t, E.real('x')])
    agree(E, 'after the edit', d, make(src), x)
    E.check('not left updating', E.not_(d.is_updating))
    E.check('begins and ends', w.kinds == [] or (w.kinds[0] == 'begin' and w.kinds[-1] == 'end'))
