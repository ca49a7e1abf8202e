"""C18: JSON descriptors build the curve they describe.

The structure of the descriptors is enumerated (seeded, bounded in depth), their literals and
operand curves are symbolic.  The oracle is an interpreter of the documented grammar which
calls the named constructors and methods.
"""
import copy
import math
import random

from dv.harness import contract
from .common import abs_curve

P = 'C18'
FN = ['Curve.parse', 'Curve.parse_descriptor']

NARY = ('add', 'subtract', 'multiply', 'max', 'min', 'first')
UNARY = ('abs', 'additive_inverse')
LOGS = {'log': math.e, 'log2': 2, 'log10': 10}


# ---- abstract descriptors ------------------------------------------------------
def gen_value(r, depth):
    k = r.random()
    if depth <= 0 or k < 0.35:
        return ('num', r.randrange(4)) if r.random() < 0.65 else ('curve', r.randrange(2))
    return gen_chain(r, depth - 1)


def gen_chain(r, depth, running=False, length=None):
    """A descriptor with one key per step."""
    steps, used = [], set()
    for i in range(length or r.choice([1, 1, 1, 2, 2, 3])):
        s = gen_step(r, depth, running or i > 0)
        key = s[1]
        if key in used:
            break
        used.add(key)
        steps.append(s)
    return ('chain', steps)


def gen_step(r, depth, running):
    if r.random() < 0.25 and depth > 0:
        return ('deco', '@' + r.choice(list(LOGS)), gen_chain(r, depth - 1, running))
    kind = r.choice(['nary', 'nary', 'nary', 'unary', 'log', 'raised', 'offset', 'const', 'line', 'pow'])
    if running and kind in ('const', 'line'):
        kind = 'nary'
    few = lambda lo, hi: [gen_value(r, depth - 1) for _ in range(r.randint(lo, hi))]
    if kind == 'nary':
        name = r.choice(NARY)
        vals = few(1, 2) if running else few(1, 3)
        form = r.choice(['list', 'list', 'args', 'one' if len(vals) == 1 else 'list'])
        return ('fn', '$' + name, (form, vals, {}))
    if kind == 'pow' and not running:
        return ('fn', '$pow', ('list', [('num', r.randrange(4))] + few(1, 1), {}))
    if kind == 'pow':
        kind = 'unary'
    subject = [] if running else few(1, 1)
    if kind == 'unary':
        form = r.choice(['list', 'args', 'one' if subject else 'list'])
        return ('fn', '$' + r.choice(UNARY), (form, subject, {}))
    if kind == 'log':
        name = r.choice(['$log', '$log2', '$log10'])
        if r.random() < 0.3:
            return ('fn', '$log', ('args' if subject else 'kw', subject, {'base': 3}))
        if r.random() < 0.3:
            return ('fn', '$log', (r.choice(['list', 'args']), subject + [('num', 3)], {}))
        return ('fn', name, (r.choice(['list', 'one' if subject else 'list']), subject, {}))
    if kind == 'raised':
        if r.random() < 0.5:
            return ('fn', '$raised', ('args' if subject else 'kw', subject, {'base': 2}))
        return ('fn', '$raised', ('list', subject + [('num', r.randrange(4))], {}))
    if kind == 'offset':
        return ('fn', '$offset', (r.choice(['list', 'args']), subject + [('num', r.randrange(4))], {}))
    if kind == 'const':
        return ('fn', r.choice(['$const', '$constant']), (r.choice(['one', 'list', 'args']), [('num', r.randrange(4))], {}))
    return ('fn', '$line', ('points', [('num', i) for i in range(4)], {}))


# ---- as a descriptor -----------------------------------------------------------
def describe(ast, env):
    k = ast[0]
    if k == 'num':
        return env['num'][ast[1]]
    if k == 'curve':
        return env['curve'][ast[1]]
    out = {}
    for s in ast[1]:
        if s[0] == 'deco':
            out[s[1]] = describe(s[2], env)
            continue
        form, vals, kw = s[2]
        vs = [describe(v, env) for v in vals]
        if form == 'list':
            v = vs
        elif form == 'one':
            v = vs[0]
        elif form == 'kw':
            v = dict(kw)
        elif form == 'args':
            v = dict(kw)
            v['@args'] = vs
        else:
            v = {'points': [vs[:2], vs[2:]]}
        out[s[1]] = v
    return out


# ---- its meaning ---------------------------------------------------------------
class Meaning:
    def __init__(self, E, env):
        self.E, self.env, self.C = E, env, E.cp.Curve

    def literal(self, v, logs):
        for b in logs:
            v = self.E.log(v) if b == math.e else self.E.log(v) / self.E.log(b)
        return v

    def value(self, ast, logs):
        if ast[0] == 'num':
            return self.literal(self.env['num'][ast[1]], logs)
        if ast[0] == 'curve':
            return self.env['curve'][ast[1]]
        return self.chain(ast, logs, None)

    def chain(self, ast, logs, running):
        for s in ast[1]:
            if s[0] == 'deco':
                b = LOGS[s[1][1:]]
                running = self.C.pow_many([b, self.chain(s[2], logs + [b], running)])
            else:
                running = self.step(s, logs, running)
        return running

    def step(self, s, logs, running):
        name, (form, vals, kw) = s[1][1:], s[2]
        vs = [self.value(v, logs) for v in vals]
        if name in ('const', 'constant'):
            return self.E.cp.Constant(vs[0])
        if name == 'line':
            return self.E.cp.Line(points=[vs[:2], vs[2:]])
        if name in NARY or name == 'pow':
            f = getattr(self.C, name + '_many', None) or getattr(self.C, name)
            return f(([] if running is None else [running]) + vs)
        if running is None:
            running, vs = self.C.parse(vs[0]), vs[1:]
        if name in LOGS:
            base = kw.get('base', vs[0] if vs else LOGS[name])
            return self.C.log_many([running, base])
        if name == 'raised':
            return self.C.pow_many([kw.get('base', vs[0] if vs else None), running])
        if name == 'offset':
            return running.offset(vs[0])
        if name == 'abs':
            return running.abs()
        assert name == 'additive_inverse'
        return running.additive_inverse()


def environment(E):
    return {'num': [E.real('n%d' % i, lo=20) for i in range(4)],
            'curve': [abs_curve(E, 'f%d' % i, kinds=('inf',), none=False, lo=2) for i in range(2)]}


def compare(E, d, want_fn):
    before = copy_structure(d)
    want = E.oracle(want_fn)
    if want.raised:
        E.end()
    want = want.value
    o = E.call(E.cp.Curve.parse, d)
    E.check('its input is not changed', same_structure(d, before))
    if o.raised:
        E.check('the descriptor is understood', False, detail=repr(o.exc)[:200])
        E.end()
    got = o.value
    E.check('a curve', isinstance(got, E.cp.Curve))
    x = E.real('x')
    w = E.oracle(want.y, x)
    g = E.call(got.y, x)
    if w.raised:
        E.end()
    E.check('has a value', not g.raised, detail=repr(g.exc)[:200])
    E.check('the value of the described curve', E.same(g.value, w.value))
    E.check('the domain of the described curve', E.same_interval(got.domain, want.domain))


def copy_structure(d):
    if isinstance(d, dict):
        return {k: copy_structure(v) for k, v in d.items()}
    if isinstance(d, list):
        return [copy_structure(v) for v in d]
    return d


def same_structure(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_structure(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_structure(p, q) for p, q in zip(a, b))
    return a is b


def asts(seed, n, depth):
    r = random.Random(seed)
    seen, out = set(), []
    while len(out) < n:
        a = gen_chain(r, depth)
        if repr(a) not in seen and a[1]:
            seen.add(repr(a))
            out.append(a)
    return out


def run_tree(E, a):
    env = environment(E)
    d = describe(a, env)
    E.check('the structure is a descriptor', isinstance(d, dict))
    compare(E, d, lambda: Meaning(E, env).value(a, []))


@contract(P, 'descriptor.shallow', bound='120 structures of depth 1', functions=FN, splits=list(range(24)))
def _(E):
    run_tree(E, E.pick('tree', asts('shallow%d' % E.param, 5, 1)))


@contract(P, 'descriptor.nested', bound='180 structures of depth 3', functions=FN, splits=list(range(36)))
def _(E):
    run_tree(E, E.pick('tree', asts('nested%d' % E.param, 5, 3)))


@contract(P, 'descriptor.deep', bound='1200 structures of depth 5', functions=FN, splits=list(range(120)), tier='thorough')
def _(E):
    run_tree(E, E.pick('tree', asts('deep%d' % E.param, 10, 5)))


# ---- the rules one by one ------------------------------------------------------
def num(i): return ('num', i)


def fn(name, *vals, form='list', **kw): return ('fn', name, (form, list(vals), kw))


RULES = {
    'add': [fn('$add', num(0), num(1))],
    'one value': [fn('$add', num(0), form='one')],
    'args': [fn('$add', num(0), num(1), form='args')],
    'nested': [fn('$max', ('chain', [fn('$add', num(0), num(1))]), num(2))],
    'chain instance': [fn('$constant', num(0)), fn('$additive_inverse')],
    'chain class': [fn('$constant', num(0)), fn('$subtract', num(1), num(2))],
    'chain single': [fn('$constant', num(0)), fn('$subtract', num(1), form='one')],
    'chain args': [fn('$constant', num(0)), fn('$subtract', num(1), form='args')],
    'chain log base': [fn('$constant', num(0)), fn('$log', form='kw', base=2)],
    'chain log positional': [fn('$constant', num(0)), fn('$log', num(1))],
    'log positional': [fn('$log', num(0), num(1))],
    'log args base': [fn('$log', num(0), form='args', base=7)],
    'log2': [fn('$log2', num(0), form='one')],
    'log10': [fn('$log10', num(0), form='one')],
    'raised': [fn('$raised', num(0), form='args', base=2)],
    'line': [fn('$line', num(0), num(1), num(2), num(3), form='points')],
    'curve': [fn('$subtract', ('curve', 0), ('curve', 1))],
    'chain on chain': [fn('$add', num(0), num(1)), fn('$multiply', num(2)), fn('$abs')],
}
for _d in LOGS:
    RULES['@%s number' % _d] = [('deco', '@' + _d, ('chain', [fn('$add', num(0), num(1))]))]
    RULES['@%s args' % _d] = [('deco', '@' + _d, ('chain', [fn('$add', num(0), num(1), form='args')]))]
    RULES['@%s deep' % _d] = [('deco', '@' + _d, ('chain', [fn('$max', ('chain', [fn('$add', num(0), num(1))]), num(2))]))]
    RULES['@%s line' % _d] = [('deco', '@' + _d, ('chain', [fn('$line', num(0), num(1), num(2), num(3), form='points')]))]
    RULES['@%s then plain' % _d] = [('deco', '@' + _d, ('chain', [fn('$constant', num(0))])), fn('$max', num(1))]
    RULES['@%s in chain' % _d] = [fn('$constant', num(0)), ('deco', '@' + _d, ('chain', [fn('$add', num(1))])), fn('$abs')]
    RULES['@%s operand' % _d] = [fn('$add', ('chain', [('deco', '@' + _d, ('chain', [fn('$add', num(0), num(1))]))]), num(2))]
    for _e in LOGS:
        RULES['@%s @%s' % (_d, _e)] = [('deco', '@' + _d, ('chain', [
            fn('$add', num(0), ('chain', [('deco', '@' + _e, ('chain', [fn('$add', num(1), num(2))]))]))]))]


@contract(P, 'descriptor.rules', functions=FN, splits=sorted(RULES))
def _(E):
    run_tree(E, ('chain', RULES[E.param]))


@contract(P, 'descriptor.literal', functions=FN, splits=[(d, w) for d in LOGS for w in ('fragment', 'operand')])
def _(E):
    """A number literal is unchanged by entering and leaving log space."""
    d, w = E.param
    n = E.real('n', lo=2)
    b, v = LOGS[d], (E.log(n) if d == 'log' else E.log(n) / E.log(LOGS[d]))
    if w == 'fragment':
        E.check('raised back', E.same(E.ok('parse', E.cp.Curve.parse_descriptor, {'@' + d: n}, fragment=True), b ** v))
    else:
        c = E.ok('parse', E.cp.Curve.parse, {'$constant': {'@' + d: n}})
        E.check('raised back', E.same(c.y(E.real('x')), b ** v))


DATES = {
    '2020-02-12 01:23+1200': 1581427380, '2020-02-12T01:23:45+00:00': 1581470625, '1970-01-01T00:00:10+00:00': 10,
    '2019-12-31T23:59:59-03:30': 1577849399,
}


@contract(P, 'descriptor.date', functions=FN, bound='four dates', splits=sorted(DATES))
def _(E):
    """Dates become timestamps, wherever they are; numbers stay what they are."""
    s, t = E.param, DATES[E.param]
    y0, y1, x1 = E.real('y0', lo=2), E.real('y1', lo=2), E.posreal('dx')
    C = E.cp.Curve
    E.check('a date', E.same(E.ok('parse', C.parse_descriptor, {'@date': s}, fragment=True), t))
    E.check('dates in a list', E.same(E.ok('parse', C.parse_descriptor, {'@date': [s, s]}, fragment=True), [t, t]))
    x = E.real('x')
    want = E.cp.Line(points=[[t, y0], [t + x1, y1]])
    for d in ({'$line': {'points': [[{'@date': s}, y0], [t + x1, y1]]}},
              {'@date': {'$line': {'points': [[s, y0], [t + x1, y1]]}}}):
        E.check('a line from a date', E.same(E.ok('parse', C.parse, d).y(x), want.y(x)))
    want = E.cp.Line(points=[[t, E.log(y0) / E.log(2)], [E.log(t + x1) / E.log(2), E.log(y1) / E.log(2)]])
    d = {'@log2': {'$line': {'points': [[{'@date': s}, y0], [t + x1, y1]]}}}
    E.check('dates are not taken to the logarithm', E.same(E.ok('parse', C.parse, d).y(x), 2 ** want.y(x)))
    got = E.ok('parse', C.parse, {'price': {'@log2': {'$line': {'points': [[{'@date': s}, y0], [t + x1, y1]]}}}})
    E.check('a fragment keeps its keys', list(got) == ['price'] and E.decide(E.same(got['price'].y(x), 2 ** want.y(x))))


@contract(P, 'descriptor.rejected', functions=FN)
def _(E):
    n = E.real('n', lo=2)
    bad = [
        {'$nosuch': [n]}, {'$': [n]}, {'$constant': n, '$nosuch': [n]}, {'$max': [{'$nosuch': n}]},
        {'$constant': n, 'base': 2}, {'base': 2, '$constant': n}, {'$constant': n, 'x': {'$constant': n}},
        {'@log': {'$nosuch': n}}, {'$constant': n, '@date': '2020-01-01'}, {'@args': [n], '$constant': n},
        {'@logx': {'$constant': n}}, {'$logx': n},
    ]
    i = E.pick('bad', range(len(bad)))
    d = bad[i]
    before = copy_structure(d)
    E.check('rejected', E.raises(E.cp.Curve.parse, d))
    E.check('its input is not changed', same_structure(d, before))
    E.check('a list is not a descriptor', E.raises(E.cp.Curve.parse_descriptor, [n]))


@contract(P, 'descriptor.keywords', functions=FN, splits=[(d, w) for d in (None,) + tuple(LOGS) for w in (True, False)])
def _(E):
    """Keyword arguments reach the function, and switches are not numbers."""
    deco, w = E.param
    a = abs_curve(E, 'a', kinds=('finite',), none=False, lo=2)
    b = abs_curve(E, 'b', kinds=('finite',), none=False, lo=2)
    d = {'$max': {'@args': [a, b], 'ignore_empty': w}}
    want = E.cp.Curve.max(a, b, ignore_empty=w)
    if deco:
        d = {'@' + deco: d}
        want = E.cp.Curve.pow_many([LOGS[deco], want])
    got = E.ok('parse', E.cp.Curve.parse, d)
    x = E.real('x')
    E.check('the value', E.same(E.ok('y', got.y, x), want.y(x)))
    E.check('the domain', E.same_interval(got.domain, want.domain))
    t = E.ok('extension', E.cp.Curve.parse, {'$line': {'p1': [0, 1], 'slope': 2}, '$subset': [[0.0, 1.0]]})
    E.check('values between', E.same(t.y(x), 1 + 2 * x if E.decide(E.and_(x >= 0, x <= 1)) else None))


@contract(P, 'parse.other', functions=FN, bound='n<=3 points')
def _(E):
    C = E.cp.Curve
    f = abs_curve(E, 'f', kinds=('inf',))
    E.check('a curve is kept', C.parse(f) is f)
    E.check('nothing stays nothing', C.parse(None) is None)
    n, x = E.real('n'), E.real('x')
    c = E.ok('number', C.parse, n)
    E.check('a number is a constant', E.same(c.y(x), n))
    g = E.fn('g')
    c = E.ok('callable', C.parse, lambda t: g(t))
    E.check('a callable gives the values', E.same(c.y(x), g(x)))
    k = E.pick('points', range(4))
    pts = [list(p) for p in E.pts('p', k, uniform=True, gap=1e-3)]
    before = copy_structure(pts)
    c = E.ok('points', C.parse, pts)
    E.check('points make a series', E.same([tuple(p) for p in c.sample_points()], [tuple(p) for p in pts]))
    E.check('its input is not changed', same_structure(pts, before))
    many = E.ok('many', C.parse_many, [f, n])
    E.check('in order', len(many) == 2 and many[0] is f and E.decide(E.same(many[1].y(x), n)))
    E.check('anything else is rejected', E.raises(C.parse, E.pick('junk', [object(), 'text', [1, 2], [[1, 2, 3]]])))
