"""C23: minimise and maximise walk downhill (uphill), over an arbitrary curve."""
from dv.harness import contract
from .common import abs_curve

P = 'C23'
FN = ['Curve.minimise', 'Curve.maximise']


def walk(E, f, x, k, step, sign, min_step):
    """The points the search may pass: -> the set of admissible results as (x or None), by case."""
    prev = None
    for i in range(k):
        if f.y(x) is None:
            return prev, False
        b = f.d_y(x, forward=False)
        a = f.d_y(x, forward=True)
        if b is None and a is None:
            return x, False
        b = b if b is None else b * sign
        a = a if a is None else a * sign
        if b is None:
            if E.decide(a > 0):
                return None, False            # the curve falls towards its missing side
            forward = True
        elif a is None:
            if E.decide(b < 0):
                return None, False
            forward = False
        else:
            if E.decide(E.and_(b <= 0, a >= 0)):
                return x, False               # no way down
            if E.decide(E.and_(b > 0, a < 0)):
                return None, True             # a summit: either side will do
            forward = E.decide(a < 0)
        prev = x
        if step is not None:
            x = x + step if forward else x - step
        else:
            x = f.x_next(x, min_step=min_step) if forward else f.x_previous(x, min_step=min_step)
        if x is None:
            return prev, False
    return x, False


@contract(P, 'optimise.walk', bound='max_iterations<=3', functions=FN,
          splits=[(w, k, s) for w in ('minimise', 'maximise') for k in range(4) for s in ('step', 'own', 'own,default')])
def _(E):
    """The result is where a walk of at most that many steps in the falling direction ends."""
    what, k, how = E.param
    f = abs_curve(E, 'f', kinds=('inf',), stepper=True)
    x = E.real('x')
    kw = {}
    if how == 'step':
        kw['step'] = E.posreal('step')
    elif how == 'own':
        kw['min_step'] = E.posreal('ms')
    got = E.ok(what, getattr(f, what), x, max_iterations=k, **kw)
    steps = [c for c in f.calls if c[0] != 'slope']
    E.check('no more steps than allowed', len(steps) <= k)
    if how == 'own':
        E.check('steps by the asked minimum', E.and_(*[E.same(c[2], kw['min_step']) for c in steps]))
    want, summit = walk(E, f, x, k, kw.get('step'), 1 if what == 'minimise' else -1, kw.get('min_step', 1e-5))
    if not summit:
        E.check('ends where the walk along the falling side ends', E.same(got, want))


@contract(P, 'optimise.start', functions=FN, splits=[(w, k) for w in ('minimise', 'maximise') for k in (1, 2, 1000)])
def _(E):
    """Whatever the number of steps: a strict optimum, or a point without slopes, is returned itself."""
    what, k = E.param
    f = abs_curve(E, 'f', kinds=('inf',), stepper=True)
    x = E.real('x')
    kw = {} if E.pick('own', [True, False]) else {'step': E.posreal('step')}
    E.assume(f.y(x) is not None)
    b, a = f.d_y(x, forward=False), f.d_y(x, forward=True)
    if b is None or a is None:
        E.assume(b is None and a is None)
    else:
        E.assume(E.and_(b < 0, a > 0) if what == 'minimise' else E.and_(b > 0, a < 0))
    E.check('the start itself', E.same(E.ok(what, getattr(f, what), x, max_iterations=k, **kw), x))


@contract(P, 'optimise.missing', functions=FN, splits=('minimise', 'maximise'))
def _(E):
    f = abs_curve(E, 'f', kinds=('inf',), stepper=True)
    x = E.real('x')
    E.assume(f.y(x) is None)
    E.check('nothing where the curve has no value', E.ok('run', getattr(f, E.param), x) is None)


@contract(P, 'optimise.unimodal', bound='n<=5 samples', functions=FN,
          splits=[(w, n, m, i) for w in ('minimise', 'maximise') for n in (3, 4, 5) for m in range(1, n - 1)
                  for i in range(n)])
def _(E):
    """On a unimodal series the optimum is found from every sample."""
    what, n, m, i = E.param
    sign = 1 if what == 'minimise' else -1
    pts = E.pts('p', n, gap=1e-3)
    for j in range(n - 1):
        d = (pts[j + 1][1] - pts[j][1]) * sign
        E.assume(d < 0 if j < m else d > 0)
    p = E.cp.Points(list(pts), uniform=False)
    got = E.ok(what, getattr(p, what), pts[i][0])
    E.check('the optimum', E.same(got, pts[m][0]))
    k = E.pick('k', [0, 1, 2])
    got = E.ok(what, getattr(p, what), pts[i][0], max_iterations=k)
    if got is not None:
        E.check('never worse than the start', E.le(p.y(got) * sign, pts[i][1] * sign))
