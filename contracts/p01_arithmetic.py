from dv.harness import contract
from .common import abs_curve, opt_fn, same_set
import math

P = 'C01'
FNS = ['Curve.__add__ .. Curve.__rpow__', 'Curve.add_many .. log_many', 'Aggregate.y', 'Aggregate.get_domain',
       'Curve.parse']


def div(E, a, b):
    if E.decide(b == 0):
        return math.inf if E.decide(a >= 0) else -math.inf
    return a / b


SPEC = {
    'add': lambda E, a, b: a + b,
    'sub': lambda E, a, b: a - b,
    'mul': lambda E, a, b: a * b,
    'div': div,
    'pow': lambda E, a, b: E.pow(a, b),
    'log': lambda E, a, b: E.log(a) / E.log(b),
}
OVERLOAD = {
    'add': lambda a, b: a + b,
    'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b,
    'div': lambda a, b: a / b,
    'pow': lambda a, b: a ** b,
}
METHOD = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'div': 'divide', 'pow': 'pow', 'log': 'log'}
MANY = {'add': 'add_many', 'sub': 'subtract_many', 'mul': 'multiply_many', 'div': 'divide_many',
        'pow': 'pow_many', 'log': 'log_many'}


def operand(E, op, i, form, kinds=None):
    """-> (operand given to the code, value at x or None, membership)"""
    n = 'f%d' % i
    pos = dict(lo=0, lo_open=True) if (op == 'log' or (op == 'pow' and i == 0)) else {}
    if form == 'curve':
        c = abs_curve(E, n, kinds=kinds, **pos)
        return c, c.y, lambda t: E.inside(c.D, t)
    if form == 'number':
        v = E.real(n, **pos)
        return v, (lambda x: v), lambda t: True
    if form == 'fn':
        f = E.fn(n, **pos)
        g = E.fn(n + '.missing', ret='bool')

        def call(x):
            return None if E.decide(g(x)) else f(x)
        return call, call, lambda t: True


def spec(E, op, ops, x):
    if not E.decide(E.and_(*[m(x) for _, _, m in ops])):
        return None
    ys = [v(x) for _, v, _ in ops]
    if any(y is None for y in ys):
        return None
    r = ys[0]
    for y in ys[1:]:
        r = SPEC[op](E, r, y)
    return r


def post(E, c, op, ops):
    x = E.real('x')
    if op == 'log':
        for _, v, _ in ops[1:]:
            b = v(x)
            if b is not None:
                E.assume(b != 1)
    E.check('value is the pointwise result', E.same(E.ok('y', c.y, x), spec(E, op, ops, x)))
    same_set(E, 'domain is the intersection of the operand domains', c.domain,
             lambda t: E.and_(*[m(t) for _, _, m in ops]))


@contract(P, 'arith.operators', functions=FNS,
          splits=[(op, a, b) for op in OVERLOAD for a, b in
                  (('curve', 'curve'), ('curve', 'number'), ('number', 'curve'), ('curve', 'fn'), ('fn', 'curve'))])
def _(E):
    op, a, b = E.param
    ops = [operand(E, op, 0, a), operand(E, op, 1, b)]
    c = E.ok('combine', OVERLOAD[op], ops[0][0], ops[1][0])
    post(E, c, op, ops)


@contract(P, 'arith.methods', functions=FNS, splits=[(op, b) for op in METHOD for b in ('curve', 'number', 'fn')])
def _(E):
    op, b = E.param
    ops = [operand(E, op, 0, 'curve'), operand(E, op, 1, b)]
    c = E.ok('combine', getattr(ops[0][0], METHOD[op]), ops[1][0])
    post(E, c, op, ops)


@contract(P, 'arith.raised', functions=['Curve.raised', 'Curve.pow_many'], splits=['curve', 'number'])
def _(E):
    ops = [operand(E, 'pow', 0, E.param), operand(E, 'pow', 1, 'curve')]
    c = E.ok('combine', ops[1][0].raised, ops[0][0])
    post(E, c, 'pow', ops)


@contract(P, 'arith.many', bound='3 operands', functions=FNS, weight=3,
          splits=[(op, forms) for op in MANY for forms in
                  (('curve', 'number', 'curve'), ('curve', 'curve', 'fn'), ('number', 'curve', 'number'))])
def _(E):
    op, forms = E.param
    pos = dict(lo=0, lo_open=True)
    ops = [operand(E, op, i, f, kinds=('finite', 'pinf')) for i, f in enumerate(forms)]
    if op == 'log':
        # a logarithm of a logarithm: keep every intermediate value in the domain of the next
        forms = forms[:2]
        ops = ops[:2]
    how = E.pick('how', ['list', 'args'])
    f = getattr(E.cp.Curve, MANY[op])
    c = E.ok('combine', f, [o[0] for o in ops]) if how == 'list' else E.ok('combine', f, *[o[0] for o in ops])
    post(E, c, op, ops)


UNARY = {
    'neg': (lambda c: -c, lambda E, y: -y),
    'additive_inverse': (lambda c: c.additive_inverse(), lambda E, y: -y),
    'abs': (lambda c: abs(c), lambda E, y: E.ite(y >= 0, y, -y)),
    'abs method': (lambda c: c.abs(), lambda E, y: E.ite(y >= 0, y, -y)),
    'pos': (lambda c: +c, lambda E, y: y),
    'multiplicative_inverse': (lambda c: c.multiplicative_inverse(), lambda E, y: 1 / y),
    'log e': (lambda c: c.log(), lambda E, y: E.log(y)),
}


@contract(P, 'arith.unary', functions=['Curve.__neg__', 'Curve.__abs__', 'Curve.multiplicative_inverse', 'Map.y'],
          splits=sorted(UNARY))
def _(E):
    op, sp = UNARY[E.param]
    kw = dict(lo=0, lo_open=True) if E.param in ('multiplicative_inverse', 'log e') else {}
    f = abs_curve(E, 'f', **kw)
    c = E.ok('combine', op, f)
    x = E.real('x')
    y = f.y(x)
    E.check('value is the pointwise result', E.same(E.ok('y', c.y, x), None if y is None else sp(E, y)))
    same_set(E, 'domain is that of the operand', c.domain, lambda t: E.inside(f.D, t))


@contract(P, 'arith.inverse-negative', functions=['Curve.multiplicative_inverse'])
def _(E):
    f = abs_curve(E, 'f')
    x = E.real('x')
    y = f.y(x)
    E.assume(y is not None)
    E.assume(y != 0)
    E.check('inverse times value is one', E.same(E.ok('y', f.multiplicative_inverse().y, x) * y, 1))


@contract(P, 'arith.nested', functions=FNS)
def _(E):
    """Operations compose: (f + g) * h - f / k at x."""
    f, g, h = (abs_curve(E, n, kinds=('finite', 'inf')) for n in 'fgh')
    k = E.real('k')
    E.assume(k != 0)
    c = E.ok('combine', lambda: (f + g) * h - f / k)
    x = E.real('x')
    ys = [f.y(x), g.y(x), h.y(x)]
    want = None
    if all(y is not None for y in ys):
        want = (ys[0] + ys[1]) * ys[2] - ys[0] / k
    E.check('value is the pointwise result', E.same(E.ok('y', c.y, x), want))
