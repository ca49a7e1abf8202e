from dv.harness import contract
from .common import abs_curve

P = 'C06'
FN = ['Curve.begin_update', 'Curve.end_update', 'Curve.add_observer', 'Curve.remove_observer',
      'Curve.is_updating', 'Curve.update_interval', 'util.count_positional_args']
KINDS = ('empty', 'point', 'finite', 'ninf', 'pinf', 'inf')
SMALL = ('empty', 'finite', 'pinf')


def curve(E):
    return abs_curve(E, 'f', kinds=('finite',), none=False)


def hull(E, a, b):
    return E.Interval.union([a, b])


def covers(E, a, b):
    """a contains b, as sets."""
    if E.is_empty(b):
        return True
    if E.is_empty(a):
        return False
    lo = E.or_(a.start < b.start, E.and_(a.start == b.start, E.or_(E.not_(a.start_open), b.start_open)))
    hi = E.or_(a.end > b.end, E.and_(a.end == b.end, E.or_(E.not_(a.end_open), b.end_open)))
    return E.and_(lo, hi)


def meets(E, a, b):
    """a and b have a point in common, as sets of reals."""
    if E.is_empty(a) or E.is_empty(b):
        return False
    l = E.or_(a.start < b.end, E.and_(a.start == b.end, E.not_(a.start_open), E.not_(b.end_open)))
    r = E.or_(b.start < a.end, E.and_(b.start == a.end, E.not_(b.start_open), E.not_(a.end_open)))
    return E.and_(l, r)


def touching(E, a, b):
    """A single point at an open start of the other interval: intervalpy counts it as an
    intersection, and whether an observer is then called is left open."""
    if E.is_empty(a) or E.is_empty(b):
        return False

    def odd(p, q):
        return E.and_(p.start == p.end, E.or_(E.and_(p.start == q.start, q.start_open),
                                              E.and_(p.end == q.end, q.end_open)))
    return E.or_(odd(a, b), odd(b, a))


def pending(E, c, kinds=KINDS):
    """Brings c into an arbitrary reachable state of pending updates.

    Every reachable state is (begun hull B, ended hull D) with D not covering B, or both
    empty: one begin and one end reach all of them."""
    B = E.interval('begun', kinds=kinds)
    D = E.Interval.empty()
    c.begin_update(B)
    if not E.is_empty(B):
        D = E.interval('ended', kinds=kinds)
        E.assume(E.not_(covers(E, D, B)))
        c.end_update(D)
    return B, D


class Obs:
    """An observer with an arbitrary domain, registered in one of the supported ways."""

    def __init__(self, E, c, log, tag, dom, with_arg=True, prioritize=False, begin=True, end=True, obj=()):
        self.E, self.log, self.tag, self.dom = E, log, tag, dom
        if with_arg:
            b, e = (lambda d: log.append(('begin', tag, d))), (lambda d: log.append(('end', tag, d)))
        else:
            b, e = (lambda: log.append(('begin', tag, None))), (lambda: log.append(('end', tag, None)))
        self.token = E.ok('add_observer', c.add_observer, *obj, domain=dom, begin=b if begin else None,
                          end=e if end else None, prioritize=prioritize)


@contract(P, 'observer.begin', functions=FN, splits=[(k, o) for k in KINDS for o in ('none', 'point', 'finite', 'ninf', 'pinf')])
def _(E):
    """One begin_update from any state of pending updates, one observer with any domain."""
    k, o = E.param
    c = curve(E)
    B, D = pending(E, c)
    log = []
    dom = None if o == 'none' else E.interval('obs', kinds=(o,))
    Obs(E, c, log, 'a', dom)
    d = E.interval('d', kinds=(k,))
    E.ok('begin_update', c.begin_update, d)
    if dom is not None:
        E.assume(E.not_(touching(E, d, dom)))
    due = E.and_(E.not_(covers(E, B, d)), True if dom is None else meets(E, d, dom))
    if E.decide(due):
        E.check('begin callback runs exactly once', [e[:2] for e in log] == [('begin', 'a')])
        E.check('with the begun interval', E.same_interval(log[0][2], d))
    else:
        E.check('no callback without a new overlapping update', log == [])
    E.check('is_updating', E.iff(c.is_updating, E.not_(E.and_(E.is_empty(B), E.is_empty(d)))))
    t = E.real('t')
    E.check('the pending interval covers everything begun', E.same_interval(c.update_interval, hull(E, B, d)))


@contract(P, 'observer.end', functions=FN, splits=[(k, o) for k in KINDS for o in ('none', 'point', 'finite', 'ninf', 'pinf')])
def _(E):
    """One end_update from any state of pending updates, one observer with any domain."""
    k, o = E.param
    c = curve(E)
    B, D = pending(E, c, kinds=('empty', 'point', 'finite', 'pinf'))
    E.assume(not E.is_empty(B))
    log = []
    dom = None if o == 'none' else E.interval('obs', kinds=(o,))
    Obs(E, c, log, 'a', dom)
    seen = []
    d = E.interval('d', kinds=(k,))
    E.ok('end_update', c.end_update, d)
    all_ended = hull(E, D, d)
    if E.decide(covers(E, all_ended, B)):
        E.check('the update is complete', E.not_(c.is_updating))
        if dom is not None:
            E.assume(E.not_(touching(E, all_ended, dom)))
        due = True if dom is None else meets(E, all_ended, dom)
        if E.decide(due):
            E.check('end callback runs exactly once', [e[:2] for e in log] == [('end', 'a')])
            E.check('with an interval covering all that was begun and ended',
                    E.and_(covers(E, log[0][2], B), covers(E, log[0][2], all_ended)))
        else:
            E.check('no callback outside the domain of the observer', log == [])
        # nothing lingers: the next update is notified afresh
        del log[:]
        nd = E.Interval(0, 1)
        c.begin_update(nd)
        E.check('a new update begins', E.and_(c.is_updating, E.same_interval(c.update_interval, nd)))
        c.end_update(nd)
        E.check('a new update ends', E.not_(c.is_updating))
        if dom is not None:
            E.assume(E.not_(touching(E, nd, dom)))
        if dom is None or E.decide(meets(E, nd, dom)):
            E.check('a new update is notified afresh', [e[:2] for e in log] == [('begin', 'a'), ('end', 'a')])
    else:
        E.check('not before everything begun has ended', log == [])
        E.check('still updating', c.is_updating)
        E.check('what is pending stays pending', E.same_interval(c.update_interval, B))


@contract(P, 'observer.is-updating', functions=FN, bound='one begun and one ended interval, then one step')
def _(E):
    """Begin and end callbacks run while, and after, the curve says it is updating."""
    c = curve(E)
    seen = []
    c.add_observer(begin=lambda: seen.append(('begin', c.is_updating)), end=lambda: seen.append(('end', c.is_updating)))
    d = E.interval('d', kinds=('point', 'finite', 'pinf', 'inf'))
    E.check('not updating at first', E.not_(c.is_updating))
    c.begin_update(d)
    E.check('updating after begin', c.is_updating)
    c.end_update(d)
    E.check('not updating after end', E.not_(c.is_updating))
    E.check('one begin while updating, one end', [s[0] for s in seen] == ['begin', 'end'] and bool(seen[0][1]))


@contract(P, 'observer.order', functions=FN, bound='3 observers', splits=[(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)])
def _(E):
    """Callbacks run in order of registration, prioritised ones first (the latest first)."""
    c = curve(E)
    log = []
    order = []
    for i, pr in enumerate(E.param):
        Obs(E, c, log, i, None, prioritize=bool(pr), with_arg=bool(i % 2))
        order = [i] + order if pr else order + [i]
    d = E.interval('d', kinds=('finite', 'inf'))
    c.begin_update(d)
    E.check('begin callbacks in order', [e[:2] for e in log] == [('begin', i) for i in order])
    c.end_update(d)
    E.check('end callbacks in order', [e[:2] for e in log[3:]] == [('end', i) for i in order])
    for kind, tag, arg in log:
        if tag % 2:
            E.check('the interval is passed to callbacks that take one', E.same_interval(arg, d))
        else:
            E.check('and only to those', arg is None)


@contract(P, 'observer.overlap', functions=FN, bound='2 observers', splits=[('finite', 'finite'), ('finite', 'pinf'), ('ninf', 'point')])
def _(E):
    """Each of two observers is judged by its own domain."""
    c = curve(E)
    log = []
    doms = [E.interval('o%d' % i, kinds=(k,)) for i, k in enumerate(E.param)]
    for i in range(2):
        Obs(E, c, log, i, doms[i])
    d = E.interval('d', kinds=('finite', 'point'))
    c.begin_update(d)
    c.end_update(d)
    for o in doms:
        E.assume(E.not_(touching(E, d, o)))
    due = [i for i in range(2) if E.decide(meets(E, d, doms[i]))]
    E.check('exactly the overlapping observers, in order',
            [e[:2] for e in log] == [('begin', i) for i in due] + [('end', i) for i in due])


class Thing:
    pass


@contract(P, 'observer.removal', functions=FN, bound='3 observers',
          splits=[(how, when) for how in ('token', 'object', 'death') for when in ('before', 'between')])
def _(E):
    how, when = E.param
    c = curve(E)
    log = []
    d = E.interval('d', kinds=('finite', 'inf'))
    objs = [Thing(), Thing(), Thing()]
    toks = []
    for i in range(3):
        f = (lambda i: (lambda: log.append(('begin', i)), lambda: log.append(('end', i))))(i)
        toks.append(c.add_observer(objs[i], begin=f[0], end=f[1], autoremove=(how == 'death')))
    k = E.pick('removed', [0, 1, 2])

    def remove():
        if how == 'token':
            E.ok('remove', c.remove_observer, toks[k])
        elif how == 'object':
            E.ok('remove', c.remove_observer, objs[k])
        else:
            objs[k] = None
    left = [i for i in range(3) if i != k]
    if when == 'before':
        remove()
        c.begin_update(d)
        c.end_update(d)
        E.check('a removed observer is never called', log == [('begin', i) for i in left] + [('end', i) for i in left])
    else:
        c.begin_update(d)
        remove()
        c.end_update(d)
        E.check('removed between begin and end', log == [('begin', i) for i in range(3)] + [('end', i) for i in left])
    E.ok('removing twice is harmless', c.remove_observer, toks[k])
    del log[:]
    c.begin_update(d)
    c.end_update(d)
    E.check('the others stay', log == [('begin', i) for i in left] + [('end', i) for i in left])


@contract(P, 'observer.removal-in-callback', functions=FN, bound='3 observers',
          splits=[(who, whom, at) for who in range(3) for whom in range(3) for at in ('begin', 'end')])
def _(E):
    """An observer removes one (possibly itself) in the middle of a notification."""
    who, whom, at = E.param
    c = curve(E)
    log = []
    toks = []

    def cb(kind, i):
        def f():
            log.append((kind, i))
            if i == who and kind == at:
                c.remove_observer(toks[whom])
        return f
    for i in range(3):
        toks.append(c.add_observer(begin=cb('begin', i), end=cb('end', i)))
    d = E.interval('d', kinds=('finite',))
    E.ok('begin', c.begin_update, d)
    E.ok('end', c.end_update, d)
    left = [i for i in range(3) if i != whom]
    late = [i for i in range(3) if i != whom or whom <= who]
    if at == 'begin':
        want = [('begin', i) for i in late] + [('end', i) for i in left]
    else:
        want = [('begin', i) for i in range(3)] + [('end', i) for i in late]
    E.check('never called after removal, and nobody else is skipped', log == want)
    E.check('not left updating', E.not_(c.is_updating))
    del log[:]
    E.ok('begin', c.begin_update, d)
    E.ok('end', c.end_update, d)
    E.check('the others stay', log == [('begin', i) for i in left] + [('end', i) for i in left])


@contract(P, 'observer.partial', functions=FN, bound='2 observers')
def _(E):
    """Only a begin, or only an end callback; none at all is not an observer."""
    c = curve(E)
    log = []
    d = E.interval('d', kinds=('finite',))
    Obs(E, c, log, 'b', None, end=False)
    Obs(E, c, log, 'e', None, begin=False)
    t = E.ok('no callbacks', c.add_observer)
    c.begin_update(d)
    c.end_update(d)
    E.check('each gets its own callbacks', [e[:2] for e in log] == [('begin', 'b'), ('end', 'e')])


@contract(P, 'observer.history', functions=FN, bound='3 updates', splits=('nested', 'overlapping', 'sequence'))
def _(E):
    """Begun and ended intervals pair up however they are interleaved."""
    how = E.param
    c = curve(E)
    log = []
    Obs(E, c, log, 'a', None)
    i = E.interval('i', kinds=('finite', 'point'))
    j = E.interval('j', kinds=('finite', 'ninf'))
    if how == 'nested':
        ops = [('b', i), ('b', j), ('e', j), ('e', i)]
    elif how == 'overlapping':
        ops = [('b', i), ('b', j), ('e', i), ('e', j)]
    else:
        ops = [('b', i), ('e', i), ('b', j), ('e', j)]
    for k, d in ops:
        (c.begin_update if k == 'b' else c.end_update)(d)
    E.check('all updates are over', E.not_(c.is_updating))
    begins = [e for e in log if e[0] == 'begin']
    ends = [e for e in log if e[0] == 'end']
    E.check('some begin and some end', len(begins) >= 1 and len(ends) >= 1)
    for d in (i, j):
        E.check('every update is covered by an end', E.or_(*[covers(E, e[2], d) for e in ends]))
