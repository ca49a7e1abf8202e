"""C21: quotes expose the stored quotes through every view.

Times are period starts of the quotes' duration, as the class demands; values are symbolic.
"""
from dv.harness import contract
from .common import Watch

P = 'C21'
PERIODS = {'1m': 60, '1h': 3600, '15s': 15}
VIEWS = {
    'open': lambda q: q[0], 'high': lambda q: q[1], 'low': lambda q: q[2], 'close': lambda q: q[3],
    'volume': lambda q: q[4], 'hl2': lambda q: (q[1] + q[2]) / 2,
}
FN = ['Quotes.__init__', 'Quotes.set', 'Quotes.append', 'Quotes.append_list', 'Quotes.encode_many', 'Quotes.y', 'Quotes.get_domain']


def quote(E, name):
    return [E.real(name + c) for c in 'ohlcv']


def quotes(E, name, n, p, start=None):
    """n consecutive quotes at period starts."""
    if start is None:
        start = E.int(name + '.i0') * p * 1.0
    return [[start + k * p, quote(E, '%s.%d' % (name, k))] for k in range(n)]


class Encoder:
    """Raw quotes are opaque tokens; every token's encoding is counted."""

    def __init__(self):
        self.table = []
        self.calls = []

    def raw(self, qs):
        out = []
        for q in qs:
            self.table.append(q)
            out.append(('raw', len(self.table) - 1))
        return out

    def __call__(self, r):
        assert r[0] == 'raw'
        self.calls.append(r[1])
        return self.table[r[1]]


def plain(qs):
    return [(q[0], tuple(q[1])) for q in qs]


def holds(E, label, c, want):
    E.check(label, E.same(plain(c.sample_points()), plain(want)))


HOWS = ('set', 'append', 'append_list', 'append empty')


def apply(E, c, how, have, p, enc, name):
    """One edit; returns the quotes it should then hold."""
    nxt = have[-1][0] + p if have else None
    if how == 'set':
        new = quotes(E, name, 2, p)
        arg, want = new, new
    elif how == 'append':
        new = quotes(E, name, 1, p, nxt)
        want = have + new
    elif how == 'append_list':
        new = quotes(E, name, 2, p, nxt)
        want = have + new
    else:
        new, want = [], list(have)
    raw = enc.raw(new) if enc else new
    if how == 'append':
        E.ok('append', c.append, raw[0])
    elif how == 'set':
        E.ok('set', c.set, raw)
    else:
        E.ok('append_list', c.append_list, raw)
    return want


@contract(P, 'quotes.history', bound='n<=3 quotes, up to two edits of at most two quotes', functions=FN,
          splits=[(d, n, e, a, b) for d, n, e in (('1m', 0, True), ('1m', 2, True), ('1h', 1, False), ('15s', 3, True))
                  for a in HOWS for b in HOWS + (None,) if not (n == 0 and a == 'append empty')])
def _(E):
    d, n, e, a, b = E.param
    p = PERIODS[d]
    enc = Encoder() if e else None
    have = quotes(E, 'q', n, p)
    c = E.ok('construct', E.cp.Quotes, d, enc.raw(have) if enc else [list(q) for q in have], encoder=enc)
    E.check('holds the given quotes', E.same(plain(E.ok('sample', c.sample_points)), plain(have)))
    close = c.close
    if have:
        E.check('a view is read before the edit', E.same(E.ok('close', close.y, have[-1][0]), have[-1][1][3]))
    w = Watch(c)
    wc = Watch(close)
    for i, how in enumerate((a, b)):
        if how is None:
            continue
        before = have
        del w.log[:], wc.log[:]
        have = apply(E, c, how, have, p, enc, 'e%d' % i)
        E.check('holds exactly the quotes after the edit', E.same(plain(E.ok('sample', c.sample_points)), plain(have)))
        if have:
            E.check('the domain reaches from first to last', E.same_interval(c.domain, E.Interval(have[0][0], have[-1][0])))
            E.check('the domain of a view too', E.same_interval(close.domain, c.domain))
        if len(have) != len(before):
            E.check('begin and end are notified', w.kinds == ['begin', 'end'] and wc.kinds == ['begin', 'end'])
            E.check('the change is covered', E.inside(w.log[1][1], have[-1][0]))
        E.check('not left updating', not c.is_updating and not close.is_updating)
    if enc:
        E.check('every quote was encoded exactly once, in order', enc.calls == list(range(len(enc.table))))
    if have:
        E.check('last quote', E.same(tuple(E.ok('last', c.last_quote)), tuple(have[-1][1])))
        E.check('first quote', E.same(tuple(E.ok('first', c.first_quote)), tuple(have[0][1])))
        E.check('the view follows', E.same(E.ok('close', close.y, have[-1][0]), have[-1][1][3]))
    else:
        E.check('no boundary quotes', c.last_quote() is None and c.first_quote() is None)


@contract(P, 'quotes.rejected', bound='n<=3 quotes', functions=FN, splits=[(d, n) for d in ('1m', '15s') for n in (1, 2, 3)])
def _(E):
    """A quote out of order or off the spacing is rejected and changes nothing."""
    d, n = E.param
    p = PERIODS[d]
    have = quotes(E, 'q', n, p)
    c = E.cp.Quotes(d, [list(q) for q in have])
    x = E.real('x')
    if n > 1 and E.pick('gap', [False, True]):
        E.assume(x > have[-1][0])
        E.assume(E.not_(E.same(x, have[-1][0] + p)))
    else:
        E.assume(x <= have[-1][0])
    E.check('rejected', E.raises(c.append, [x, quote(E, 'new')]))
    E.check('nothing changed', E.same(plain(c.sample_points()), plain(have)))
    E.check('not left updating', not c.is_updating)


@contract(P, 'quotes.views', bound='n<=4 quotes', functions=['Quotes.' + v for v in VIEWS] + ['Map.y', 'Quotes.y'],
          splits=[(d, n, v) for d in ('1m', '15s') for n in (1, 2, 4) for v in VIEWS])
def _(E):
    d, n, v = E.param
    p = PERIODS[d]
    have = quotes(E, 'q', n, p)
    c = E.cp.Quotes(d, [list(q) for q in have])
    view = E.ok('view', getattr, c, v)
    E.check('the view is kept', getattr(c, v) is view)
    x = E.real('x')
    got = E.ok('y', view.y, x)
    qy = E.ok('quote', c.y, x)
    if E.decide(E.and_(have[0][0] <= x, x <= have[-1][0])):
        i = max(i for i in range(n) if E.decide(have[i][0] <= x))
        E.check('the last quote at or before x', E.same(tuple(qy), tuple(have[i][1])))
        E.check('its component', E.same(got, VIEWS[v](have[i][1])))
    else:
        E.check('nothing outside the domain', got is None and qy is None)
    E.check('the view has the domain of the quotes', E.same_interval(view.domain, c.domain))


@contract(P, 'quotes.empty', functions=['Quotes.get_range', 'Quotes.sample', 'Quotes.get_quote_domain'], splits=list(VIEWS))
def _(E):
    c = E.cp.Quotes('1m', E.pick('given', [None, []]))
    x = E.real('x')
    E.check('no value', E.ok('y', getattr(c, E.param).y, x) is None)
    E.check('no samples', E.ok('sample', c.sample) == [])
    E.check('no range', E.ok('range', c.get_range).is_empty)
    E.check('no domain', c.domain.is_empty and E.ok('quote domain', c.get_quote_domain).is_empty)


def meets(E, dom, a, b):
    """[a, b) meets dom."""
    if dom.start is None:
        return False
    lo = (dom.start < b) if not _inf(dom.start) else True
    if _inf(dom.end):
        return lo
    return E.and_(lo, E.or_(a < dom.end, E.and_(a == dom.end, E.not_(dom.end_open))))


def _inf(v):
    return isinstance(v, float) and v in (float('inf'), float('-inf'))


@contract(P, 'quotes.sample', bound='n<=3 quotes', functions=['Quotes.sample_points', 'Quotes.sample', 'Quotes.get_range'],
          splits=[(d, n, k) for d in ('1m', '1h') for n in (1, 2, 3) for k in ('point', 'finite', 'ninf', 'pinf', 'inf', 'empty')])
def _(E):
    d, n, k = E.param
    p = PERIODS[d]
    have = quotes(E, 'q', n, p)
    c = E.cp.Quotes(d, [list(q) for q in have])
    dom = E.interval('dom', kinds=(k,))
    want = [q for q in have if E.decide(meets(E, dom, q[0], q[0] + p))]
    got = E.ok('sample_points', c.sample_points, dom)
    E.check('exactly the quotes whose period meets the domain', E.same(plain(got), plain(want)))
    E.check('the same quotes without their times', E.same([tuple(q) for q in E.ok('sample', c.sample, dom)],
                                                          [tuple(q[1]) for q in want]))
    r = E.ok('range', c.get_range, dom)
    if want:
        # one quote may have a low above its high; the range is what the quotes say
        E.assume(E.and_(*[q[1][2] <= q[1][1] for q in want]))
        r = E.ok('range', c.get_range, dom)
        E.check('from the lowest low', E.and_(*[E.le(r.start, q[1][2]) for q in want],
                                              E.or_(*[E.same(r.start, q[1][2]) for q in want])))
        E.check('to the highest high', E.and_(*[E.le(q[1][1], r.end) for q in want],
                                              E.or_(*[E.same(r.end, q[1][1]) for q in want])))
        E.check('ends belong to the range', E.not_(E.or_(r.start_open, r.end_open)))
    else:
        E.check('no range without quotes', r.is_empty)


@contract(P, 'quotes.domain', bound='n<=3 quotes', functions=['Quotes.get_quote_domain'],
          splits=[(d, n) for d in ('1m', '1h') for n in (1, 2, 3)])
def _(E):
    d, n = E.param
    p = PERIODS[d]
    have = quotes(E, 'q', n, p)
    c = E.cp.Quotes(d, [list(q) for q in have])
    dom = E.ok('quote domain', c.get_quote_domain)
    t = E.real('t')
    E.check('the periods of all quotes', E.iff(E.inside(dom, t), E.and_(have[0][0] <= t, t < have[-1][0] + p)))


@contract(P, 'quotes.step', bound='n<=3 quotes', functions=['Quotes.x_next', 'Quotes.x_previous'],
          splits=[(d, n) for d in ('1m', '1h') for n in (1, 2, 3)])
def _(E):
    d, n = E.param
    p = PERIODS[d]
    have = quotes(E, 'q', n, p)
    c = E.cp.Quotes(d, [list(q) for q in have])
    i = E.pick('i', range(n))
    E.check('the next quote', E.same(E.ok('x_next', c.x_next, have[i][0]), have[i + 1][0] if i + 1 < n else None))
    E.check('the previous quote', E.same(E.ok('x_previous', c.x_previous, have[i][0]), have[i - 1][0] if i else None))


@contract(P, 'quotes.trailing', bound='n<=4 quotes, degree<=3 or periods up to 3', weight=2,
          functions=['Quotes.trailing_high', 'Quotes.trailing_low', 'Curve.trailing_max', 'Curve.trailing_min'],
          splits=[(n, w, g) for n in (1, 3, 4) for w in ('high', 'low') for g in (1, 2, 3, 'period')])
def _(E):
    n, which, g = E.param
    d = '1m'
    p = PERIODS[d]
    have = quotes(E, 'q', n, p)
    c = E.cp.Quotes(d, [list(q) for q in have])
    f = c.trailing_high if which == 'high' else c.trailing_low
    i = E.pick('i', range(n))
    if g == 'period':
        k = E.pick('periods', [1, 2, 3])
        t = E.ok('trailing', f, k * p, is_period=True)
        first = max(0, i - k)
    else:
        t = E.ok('trailing', f, g)
        first = max(0, i - g + 1)
    vals = [q[1][1 if which == 'high' else 2] for q in have[first:i + 1]]
    x = have[i][0]
    if i + 1 < n:
        u = E.posreal('u')
        E.assume(u < p)
        x = x + E.pick('between', [0, 1]) * u
    y = E.ok('y', t.y, x)
    E.check('one of the window', E.or_(*[E.same(y, v) for v in vals]))
    E.check('the extreme of the window', E.and_(*[E.le(v, y) if which == 'high' else E.le(y, v) for v in vals]))


@contract(P, 'quotes.trailing.edit', bound='n<=2 quotes, one appended', functions=['Quotes.trailing_high', 'Quotes.append'],
          splits=[(n, w) for n in (1, 2) for w in ('high', 'low')])
def _(E):
    n, which = E.param
    p = 60
    have = quotes(E, 'q', n, p)
    c = E.cp.Quotes('1m', [list(q) for q in have])
    t = (c.trailing_high if which == 'high' else c.trailing_low)(2)
    t.y(have[-1][0])
    new = [have[-1][0] + p, quote(E, 'new')]
    E.ok('append', c.append, list(new))
    vals = [q[1][1 if which == 'high' else 2] for q in (have + [new])[-2:]]
    y = E.ok('y', t.y, new[0])
    E.check('the window after an append', E.and_(E.or_(*[E.same(y, v) for v in vals]),
                                                 *[E.le(v, y) if which == 'high' else E.le(y, v) for v in vals]))


MONTHS = [1546300800.0, 1548979200.0, 1551398400.0, 1554076800.0]     # 2019-01-01 .. 2019-04-01


@contract(P, 'quotes.calendar', bound='four monthly quotes', functions=['Quotes.sample_points', 'Quotes.y'], splits=('y', 'append', 'sample'))
def _(E):
    """Periods of unequal length: the series is not uniform."""
    have = [[x, quote(E, 'q%d' % i)] for i, x in enumerate(MONTHS[:3])]
    c = E.ok('construct', E.cp.Quotes, '1M', [list(q) for q in have])
    if E.param == 'append':
        new = [MONTHS[3], quote(E, 'new')]
        E.ok('append', c.append, list(new))
        have.append(new)
        E.check('holds all quotes', E.same(plain(c.sample_points()), plain(have)))
    elif E.param == 'y':
        x = E.real('x', lo=MONTHS[0], hi=MONTHS[2])
        i = max(i for i in range(3) if E.decide(MONTHS[i] <= x))
        E.check('the last quote at or before x', E.same(tuple(E.ok('y', c.y, x)), tuple(have[i][1])))
    else:
        a, b = E.pick('domain', [(0.5, 1.5), (0, 0), (0, 1), (1, 2.5), (0.25, 0.75), (2, 2.5)])
        at = lambda v: MONTHS[int(v)] + (v - int(v)) * (MONTHS[int(v) + 1] - MONTHS[int(v)])
        got = E.ok('sample', c.sample_points, E.Interval(at(a), at(b)))
        want = have[int(a):int(b) + 1]
        E.check('exactly the quotes whose period meets the domain', E.same(plain(got), plain(want)))


@contract(P, 'quotes.indicators', functions=['Quotes.ao', 'Quotes.alligator'], bound='durations 1m, 1M; 40 quotes')
def _(E):
    """The indicators are built from moving averages of the middle of the quotes."""
    n = 40
    x0 = E.int('i0') * 60.0
    have = [[x0 + 60 * i, [0, (i * 7) % 11 + 2.0, (i * 5) % 3 * 1.0, 0, 0]] for i in range(n)]
    c = E.cp.Quotes('1m', have)
    hl2 = c.hl2
    x = have[-1][0]
    E.check('the oscillator', E.same(E.ok('ao', c.ao).y(x), hl2.sma(5, uniform=True).y(x) - hl2.sma(34, uniform=True).y(x)))
    for curve, deg, off in zip(E.ok('alligator', c.alligator), (13, 8, 5), (8, 5, 3)):
        E.check('the moved averages', E.same(curve.y(x), hl2.sma(deg, uniform=True).y(x - off * 60)))
