from dv.harness import contract
from .common import abs_curve, same_set, Watch

P = 'C22'
MAP = ['Map.y', 'Map.x_next', 'Map.x_previous', 'Map.get_domain', 'Map._map', 'Curve.map']
DOMS = ('empty', 'point', 'finite', 'ninf', 'pinf', 'inf')


def mapping(E, arity):
    """An arbitrary function of (x, y) or of y that also accepts a missing y."""
    f = E.fn('tfm', arity=arity)
    n = E.fn('tfm.none', arity=1)
    if arity == 2:
        return lambda x, y: n(x) if y is None else f(x, y)
    return lambda y: n(0.0) if y is None else f(y)


@contract(P, 'map.value', functions=MAP, splits=[(k, a, s) for k in DOMS for a in (1, 2) for s in (True, False)])
def _(E):
    k, arity, skip = E.param
    c = abs_curve(E, 'f', kinds=(k,))
    t = mapping(E, arity)
    m = E.ok('map', c.map, t, skip_none=skip, name='m')
    x = E.real('x')
    y = c.y(x)
    if y is None and skip:
        want = None
    else:
        want = t(x, y) if arity == 2 else t(y)
    E.check('the function applied to x and the source value', E.same(E.ok('y', m.y, x), want))
    same_set(E, 'the domain of the source', m.domain, lambda u: E.inside(c.domain, u))
    E.check('the given name', m.name == 'm')


@contract(P, 'map.source', functions=MAP)
def _(E):
    """The source may be a number or a callable."""
    v = E.real('v')
    f = E.fn('g')
    x = E.real('x')
    t = mapping(E, 1)
    a = E.ok('map of a number', E.cp.Map, v, t)
    b = E.ok('map of a callable', E.cp.Map, lambda x: f(x), t)
    E.check('function of the number', E.same(E.ok('y', a.y, x), t(v)))
    E.check('function of the callable\'s value', E.same(E.ok('y', b.y, x), t(f(x))))


@contract(P, 'map.invalid', functions=['Map.__init__'])
def _(E):
    c = abs_curve(E, 'f', kinds=('inf',))
    bad = E.pick('bad', [lambda: 1, lambda a, b, c: 1])
    E.check('a function of one or two arguments is needed', E.raises(c.map, bad))


@contract(P, 'map.step', functions=MAP, splits=[(o, m) for o in ('own', 'none') for m in ('default', 'given')])
def _(E):
    """Step points are the source's, at the larger of the requested, the map's and the source's step."""
    o, mm = E.param
    own = E.posreal('own') if o == 'own' else None
    c = abs_curve(E, 'f', kinds=('finite', 'inf'), min_step=own, stepper=True)
    kw = {} if mm == 'default' else {'min_step': E.posreal('of_map')}
    m = E.ok('map', c.map, lambda y: y, **kw)
    base = kw.get('min_step', 1e-5)
    if own is not None:
        base = E.ite(own > base, own, base)
    x, l = E.real('x'), E.real('l')
    how = E.pick('asked', ['given', 'none', 'default'])
    if how == 'given':
        s = E.posreal('s')
        ka = {'min_step': s, 'limit': l}
    elif how == 'default':
        s = 1e-5
        ka = {'limit': l}
    else:
        s = base
        ka = {'min_step': None, 'limit': l}
    eff = E.ite(s > base, s, base)
    for n in ('x_next', 'x_previous'):
        got = E.ok(n, getattr(m, n), x, **ka)
        E.check(n + ' is the source\'s step at the larger minimum', E.same(got, getattr(c, n)(x, min_step=eff, limit=l)))


@contract(P, 'map.unary', functions=['Curve.additive_inverse', 'Curve.abs', 'Curve.multiplicative_inverse'],
          splits=DOMS)
def _(E):
    c = abs_curve(E, 'f', kinds=(E.param,))
    x = E.real('x')
    y = c.y(x)
    E.check('negation', E.same(E.ok('neg', c.additive_inverse).y(x), None if y is None else -y))
    E.check('absolute value', E.same(E.ok('abs', c.abs).y(x), None if y is None else E.ite(y >= 0, y, -y)))


@contract(P, 'subset.value', functions=['Curve.subset', 'Generic.y', 'Generic.get_domain'],
          splits=[(k, d) for k in DOMS for d in ('point', 'finite', 'ninf', 'pinf', 'inf')])
def _(E):
    k, dk = E.param
    m = E.posreal('own')
    c = abs_curve(E, 'f', kinds=(k,), min_step=m)
    d = E.interval('S', kinds=(dk,))
    s = E.ok('subset', c.subset, d)
    x = E.real('x')
    E.check('the source inside, nothing outside', E.same(E.ok('y', s.y, x), c.y(x) if E.decide(E.inside(d, x)) else None))
    same_set(E, 'the given domain', s.domain, lambda u: E.inside(d, u))
    E.check('the step of the source', E.same(s.min_step, m))


@contract(P, 'generic.value', functions=['Generic.y', 'Generic.get_domain', 'Curve.parse'],
          splits=('default', 'point', 'finite', 'ninf', 'inf'))
def _(E):
    f = E.fn('f')
    kw = {} if E.param == 'default' else {'domain': E.interval('S', kinds=(E.param,))}
    g = E.ok('construct', E.cp.Generic, lambda x: f(x), **kw)
    x = E.real('x')
    inside = E.inside(kw['domain'], x) if kw else True
    E.check('the function inside, nothing outside', E.same(E.ok('y', g.y, x), f(x) if E.decide(inside) else None))
    same_set(E, 'domain', g.domain, lambda u: E.inside(kw['domain'], u) if kw else True)
    d = E.Interval(0, 1)
    g.begin_update(d)
    g.end_update(d)
    E.check('the same after an update', E.same(E.ok('y', g.y, x), f(x) if E.decide(inside) else None))


@contract(P, 'differential.value', functions=['Curve.differential', 'Map.y'], splits=[(k, f, a) for k in DOMS for f in (True, False) for a in (True, False)])
def _(E):
    k, forward, stepper = E.param
    c = abs_curve(E, 'f', kinds=(k,), stepper=stepper)
    d = E.ok('differential', c.differential, forward=True) if forward else E.ok('differential', c.differential)
    x = E.real('x')
    E.check('the derivative of the source', E.same(E.ok('y', d.y, x), c.d_y(x, forward=forward)))
    same_set(E, 'the domain of the source', d.domain, lambda u: E.inside(c.domain, u))


@contract(P, 'map.notify', functions=['Map.__init__'], splits=('point', 'finite', 'pinf', 'inf'))
def _(E):
    c = abs_curve(E, 'f', kinds=('inf',))
    m = c.map(lambda y: y)
    w = Watch(m)
    d = E.interval('d', kinds=(E.param,))
    c.begin_update(d)
    E.check('updating with the source', m.is_updating)
    c.end_update(d)
    E.check('one begin and one end', w.kinds == ['begin', 'end'])
    E.check('not left updating', E.not_(m.is_updating))
    for k, i in w.log:
        E.check('the source\'s interval', E.same_interval(i, d))
