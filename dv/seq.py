"""Series of symbolic length, and loops cut at invariants.

A SymSeq is a Python list of points whose length is a symbolic integer: `n` is a term and
`at(i)` gives the element at a term i.  A drawn series is a pair of uninterpreted functions
x(i), y(i); what is known of all its elements (ascending x, loop invariants of the form "for
every j") is instantiated at every index that is used (`Base.use`), so that obligations stay
free of quantifiers.

`cut` replaces the loops of a function, mechanically and on every run, by one arbitrary
iteration:     invariant checked on entry; assigned variables arbitrary; invariant assumed;
               either the loop condition fails and execution goes on after the loop, or the
               body runs once and the invariant is checked again (the path ends there).
"""
import ast
import builtins
import inspect
import textwrap

import z3

from . import engine, sym
from .sym import SNum, SBool, Unsupported, mk


def zi(i):
    """z3 Int of an int / SNum."""
    if isinstance(i, SNum):
        if not i.isint:
            raise TypeError('list indices must be integers or slices, not float')
        return i.z
    if isinstance(i, bool) or isinstance(i, builtins.int):
        return z3.IntVal(int(i))
    if hasattr(i, '__index__'):
        return z3.IntVal(i.__index__())
    raise TypeError('list indices must be integers or slices, not ' + type(i).__name__)


class Base:
    """An arbitrary series of points with strictly ascending x."""

    def __init__(self, path, name, uniform, none_y=False):
        self.path, self.name = path, name
        self.none = z3.Function(name + '.none', z3.IntSort(), z3.BoolSort()) if none_y else None
        self.cells = {}
        self.n = z3.Int(name + '.n')
        self.X = None
        self.Y = z3.Function(name + '.y', z3.IntSort(), z3.RealSort())
        self.h = None
        if uniform:
            self.x0 = z3.Real(name + '.x0')
            self.h = z3.Real(name + '.h')
            path.add(self.h > 0)
        else:
            self.X = z3.Function(name + '.x', z3.IntSort(), z3.RealSort())
        self.used = []

    def x(self, i):
        if self.h is not None:
            return self.x0 + self.h * z3.ToReal(i)
        return self.X(i)

    def use(self, i):
        i = z3.simplify(i)
        for j in self.used:
            if j.eq(i):
                return i
        for j in self.used:
            self.order(j, i)
        self.used.append(i)
        return i

    def order(self, j, i):
        d = z3.simplify(i - j)
        if z3.is_int_value(d):
            if d.as_long() == 0:
                return
            self.path.axiom(self.x(j) < self.x(i) if d.as_long() > 0 else self.x(i) < self.x(j))
        elif self.h is None:
            self.path.axiom(z3.And(z3.Implies(i < j, self.x(i) < self.x(j)),
                                   z3.Implies(j < i, self.x(j) < self.x(i)),
                                   z3.Implies(i == j, z3.And(self.x(i) == self.x(j), self.Y(i) == self.Y(j)))))
        else:
            # x(i) - x(j) = h (i - j): only the sign and the unit steps are stated (products are costly)
            xi, xj, h = self.x(i), self.x(j), self.h
            self.path.axiom(z3.And(z3.Implies(i < j, xi <= xj - h), z3.Implies(j < i, xj <= xi - h),
                                   z3.Implies(i + 1 < j, xi <= xj - 2 * h), z3.Implies(j + 1 < i, xj <= xi - 2 * h),
                                   z3.Implies(i == j, xi == xj), z3.Implies(i == j + 1, xi == xj + h),
                                   z3.Implies(j == i + 1, xj == xi + h)))

    def at(self, i):
        i = self.use(i)
        if self.none is None:
            return mk(self.x(i)), mk(self.Y(i))
        return Point(mk(self.x(i)), lambda: self._y(i))

    def _y(self, i):
        return None if engine.branch(self.none(i)) else mk(self.Y(i))

    # ---- concrete instances of counter-models
    def terms(self):
        out = [self.x(i) for i in self.used] + [self.Y(i) for i in self.used]
        if self.h is not None:
            out += [self.x0, self.h]
        return out

    def concrete(self, num, isnone, n):
        if n > 200:
            return None
        known = {}
        for i in self.used:
            y = num(self.Y(i))
            if self.none is not None and isnone(self.none(i)):
                y = None
            known[int(num(i))] = (num(self.x(i)), y)
        if self.h is not None:
            x0, h = num(self.x0), num(self.h)
            return [[x0 + h * i, known[i][1] if i in known else float(i % 3)] for i in range(n)]
        out = []
        idx = sorted(known)
        for i in range(n):
            if i in known:
                out.append([known[i][0], known[i][1]])
                continue
            lo = [j for j in idx if j < i]
            hi = [j for j in idx if j > i]
            if lo and hi:
                a, b = lo[-1], hi[0]
                x = known[a][0] + (known[b][0] - known[a][0]) * (i - a) / (b - a)
            elif lo:
                x = known[lo[-1]][0] + (i - lo[-1])
            elif hi:
                x = known[hi[0]][0] - (hi[0] - i)
            else:
                x = float(i)
            out.append([x, float(i % 3)])
        return out


class Point(tuple):
    """A point whose y is looked at only when the code does."""

    def __new__(cls, x, y):
        p = tuple.__new__(cls, (x, POISON))
        p.x, p.lazy, p.got = x, y, []
        return p

    def _yval(self):
        if not self.got:
            self.got.append(self.lazy())
        return self.got[0]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return (self.x, self._yval())[i]
        return self.x if i in (0, -2) else self._yval() if i in (1, -1) else tuple.__getitem__(self, i)

    def __iter__(self):
        return iter((self.x, self._yval()))

    def __eq__(self, o):
        return tuple(self) == (tuple(o) if isinstance(o, Point) else o)

    def __ne__(self, o):
        return not self == o
    __hash__ = None


class Node:
    """An immutable sequence: n elements, raw(i) for 0 <= i < n, and what is known of all of them."""

    def __init__(self, n, raw, part=None):
        self.n = z3.simplify(n)
        self.raw = raw
        self.part = part          # (node, offset) of which this is a slice
        self.used, self.schemas = [], []
        self.busy = False

    def at(self, i):
        i = z3.simplify(i)
        if not any(j.eq(i) for j in self.used):
            self.used.append(i)
            self._instances([i], self.schemas)
        return self.raw(i)

    def _instances(self, idx, schemas):
        if self.busy:
            return
        self.busy = True
        try:
            for s in list(schemas):
                for i in list(idx):
                    c = s(mk(i))
                    if c is not None:
                        engine.axiom(sym.bz(c))
        finally:
            self.busy = False

    def schema(self, s):
        """s(j) holds for every index j."""
        self.schemas.append(s)
        self._instances(self.used, [s])


class SymSeq:
    """A list that is a Node at any one time."""

    def __init__(self, node):
        self.node = node

    @property
    def n(self):
        return self.node.n

    @property
    def at(self):
        return self.node.at

    # -- reading
    @property
    def length(self):
        return mk(self.n)

    def __bool__(self):
        return engine.branch(z3.simplify(self.n != 0))

    def __len__(self):
        raise Unsupported('length of a symbolic series')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic series')

    def _index(self, i, what='list index out of range'):
        i = zi(i)
        if not engine.implied(i >= 0) and engine.branch(z3.simplify(i < 0)):
            i = i + self.n
            if engine.branch(z3.simplify(i < 0)):
                raise IndexError(what)
        if not engine.implied(i < self.n) and engine.branch(z3.simplify(i >= self.n)):
            raise IndexError(what)
        return z3.simplify(i)

    def _bound(self, i, default):
        if i is None:
            return default
        i = zi(i)
        n = self.n
        if engine.implied(z3.And(i >= 0, i <= n)):
            return z3.simplify(i)
        if engine.branch(z3.simplify(i < 0)):
            i = i + n
            if engine.branch(z3.simplify(i < 0)):
                return z3.IntVal(0)
            return z3.simplify(i)
        if engine.branch(z3.simplify(i > n)):
            return n
        return z3.simplify(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice with a step')
            a, b = self._bound(i.start, z3.IntVal(0)), self._bound(i.stop, self.n)
            if engine.branch(z3.simplify(b <= a)):
                return SymSeq(Node(z3.IntVal(0), self.at))
            at = self.at
            return SymSeq(Node(b - a, lambda k: at(z3.simplify(a + k)), part=(self.node, a)))
        k = self._index(i)
        gets = engine.CTX.names.setdefault('gets of series', [])
        gets.append(k)
        del gets[:-8]
        return self.at(k)

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return cat(self, o)

    def __radd__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return cat(o, self)

    def copy(self):
        return SymSeq(self.node)

    # -- writing
    def _become(self, o):
        self.node = o.node

    def __iadd__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        self._become(cat(self.copy(), o))
        return self

    def extend(self, o):
        self.__iadd__(o)

    def append(self, p):
        self.__iadd__([p])

    def clear(self):
        self.node = Node(z3.IntVal(0), self.at)

    def insert(self, i, p):
        a = self._bound(i, None)
        me = self.copy()
        self._become(me[:mk(a)] + [p] + me[mk(a):])

    def __setitem__(self, i, p):
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        k = self._index(i)
        at = self.at
        self.node = Node(self.n, lambda j: _ite(j == k, lambda: p, lambda: at(j)))

    def __delitem__(self, i):
        me = self.copy()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice with a step')
            a, b = self._bound(i.start, z3.IntVal(0)), self._bound(i.stop, self.n)
            if engine.branch(z3.simplify(b <= a)):
                return
            self._become(me[:mk(a)] + me[mk(b):])
            return
        k = self._index(i)
        if z3.is_int_value(k) and k.as_long() == 0:
            self._become(me[1:])
        elif engine.implied(k == self.n - 1):
            self._become(me[:mk(k)])
        else:
            self._become(me[:mk(k)] + me[mk(k + 1):])

    def pop(self, i=-1):
        p = self[i]
        del self[i]
        return p

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic series')
    __hash__ = None

    def __contains__(self, p):
        raise Unsupported('membership in a symbolic series')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s of a symbolic series' % n)

    def __repr__(self):
        return '<series>'

    def __format__(self, spec):
        return '<series>'


def _ite(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a()
    if z3.is_false(c):
        return b()
    if engine.implied(c):
        return a()
    if engine.implied(z3.Not(c)):
        return b()
    p, q = a(), b()
    if isinstance(p, Point) or isinstance(q, Point):
        def lazy():
            return p[1] if engine.branch(c) else q[1]
        s, t = sym._match(sym._coerce(p[0])[1], sym._coerce(q[0])[1])
        return Point(mk(z3.If(c, s, t)), lazy)
    if not (isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q)
            and all(sym.is_num(v) for v in p + q)):
        return p if engine.branch(c) else q
    out = []
    for u, v in zip(p, q):
        s, t = sym._match(sym._coerce(u)[1], sym._coerce(v)[1])
        out.append(mk(z3.If(c, s, t)))
    return tuple(out)


def lift(o):
    if isinstance(o, SymSeq):
        return o
    if isinstance(o, builtins.list):
        items = builtins.list(o)

        def at(i, lo=0):
            if lo >= len(items) - 1:
                return items[-1]
            return _ite(i <= lo, lambda: items[lo], lambda: at(i, lo + 1))
        return SymSeq(Node(z3.IntVal(len(items)), at))
    return None


def cat(a, b):
    na = a.n
    if z3.is_int_value(na) and na.as_long() == 0:
        return b.copy()
    if z3.is_int_value(b.n) and b.n.as_long() == 0:
        return a.copy()
    pa, pb = a.at, b.at
    return SymSeq(Node(na + b.n, lambda i: _ite(i < na, lambda: pa(i), lambda: pb(z3.simplify(i - na)))))


# ---------------------------------------------------------------- builtins over series

def dv_len(x):
    if isinstance(x, SymSeq):
        return x.length
    return builtins.len(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.list, SymSeq))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.list)

    def __eq__(cls, o):
        return o is cls or o is builtins.list

    def __hash__(cls):
        return hash(builtins.list)


class dv_list(metaclass=_ListMeta):
    def __new__(cls, x=()):
        if isinstance(x, SymSeq):
            return x.copy()
        return builtins.list(x)


SHIMS = {'len': dv_len, 'list': dv_list}


# ---------------------------------------------------------------- loop cutting

class Poison:
    """A variable that only earlier iterations of a cut loop have assigned."""

    def _no(self, *a, **k):
        raise Unsupported('variable assigned in an earlier iteration of a cut loop')
    __call__ = __getattr__ = __getitem__ = __iter__ = __len__ = __bool__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __index__ = __neg__ = __mod__ = _no
    __hash__ = None


POISON = Poison()
PURE_CALLS = {'int', 'float', 'min', 'max', 'abs', 'len', 'floor', 'ceil', 'contains', 'isinf', 'range', 'round'}


def assigned(body):
    names = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                names.append(n.id)

        def visit_FunctionDef(self, n):
            raise Unsupported('function defined in a cut loop')
        visit_Lambda = visit_ListComp = visit_GeneratorExp = lambda self, n: None

        def visit_Attribute(self, n):
            if not isinstance(n.ctx, ast.Load):
                raise Unsupported('a cut loop stores attributes')
            self.generic_visit(n)

        def visit_Subscript(self, n):
            if not isinstance(n.ctx, ast.Load):
                raise Unsupported('a cut loop stores elements')
            self.generic_visit(n)

        def visit_Call(self, n):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm not in PURE_CALLS:
                raise Unsupported('a cut loop calls %s' % nm)
            self.generic_visit(n)
    v = V()
    for s in body:
        v.visit(s)
    return names


class Cutter(ast.NodeTransformer):
    def __init__(self, wanted):
        self.wanted = wanted
        self.count = 0
        self.found = {}

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def loop(self, n):
        k = self.count
        self.count += 1
        self.generic_visit(n)
        if k not in self.wanted:
            return n
        if n.orelse:
            raise Unsupported('loop with an else clause')
        names = assigned(n.body)
        return k, names

    def visit_While(self, n):
        r = self.loop(n)
        if r is n:
            return n
        k, names = r
        self.found[k] = names
        pre = ast.parse('__dv_new%d = __dv_cut.enter(%d, dict(locals()))' % (k, k)).body
        for v in names:
            pre += ast.parse('%s = __dv_new%d[%r]' % (v, k, v)).body
        loop = ast.parse('for __dv_once in (0,):\n    if not True: break\nelse:\n    __dv_cut.back(%d, dict(locals()), __dv_new%d)' % (k, k)).body[0]
        loop.body[0].test.operand = n.test
        loop.body += n.body
        return [self.choice(k, n, pre, loop, '__dv_cut.use(dict(locals()))')]

    def choice(self, k, n, pre, loop, test):
        c = ast.parse('if %s:\n    pass\nelse:\n    pass' % test).body[0]
        c.body = pre + [loop]
        c.orelse = [n]
        for s in pre + [loop, c]:
            ast.copy_location(s, n)
        return c

    def visit_For(self, n):
        r = self.loop(n)
        if r is n:
            return n
        k, names = r
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range'
                and not n.iter.keywords and len(n.iter.args) <= 2 and isinstance(n.target, ast.Name)):
            raise Unsupported('cut of a for loop over something other than a range')
        if n.target.id in names:
            raise Unsupported('loop variable assigned in the body')
        self.found[k] = names
        t = n.target.id
        rng = ast.parse('__dv_range = __dv_cut.range()').body
        rng[0].value.args = n.iter.args
        n.iter = ast.parse('range(*__dv_cut.plain(__dv_range))', mode='eval').body
        pre = ast.parse('__dv_new%d = __dv_cut.enter(%d, dict(locals()), __dv_range)' % (k, k)).body
        for v in names:
            pre += ast.parse('%s = __dv_new%d[%r]' % (v, k, v)).body
        pre += ast.parse('%s = __dv_cut.poison' % t).body
        loop = ast.parse('for __dv_once in (0,):\n    if not __dv_cut.more(__dv_new%d): break\n    %s = __dv_cut.item(__dv_new%d)\n'
                         'else:\n    __dv_cut.back(%d, dict(locals()), __dv_new%d)' % (k, t, k, k, k)).body[0]
        loop.body += n.body
        return [ast.copy_location(rng[0], n), self.choice(k, n, pre, loop, '__dv_cut.use(None, __dv_range)')]


class View:
    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, n):
        try:
            v = self.__dict__['_d'][n]
        except KeyError:
            raise Unsupported('loop invariant: no variable %s' % n)
        if v is POISON:
            raise Unsupported('loop invariant: %s has no value' % n)
        return v


class Forall:
    """A claim about every index j of a series."""

    def __init__(self, s, claim):
        self.node, self.claim = s.node, claim


def _kind(v):
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (builtins.int, SNum)) and (not isinstance(v, SNum) or v.isint):
        return 'int'
    if isinstance(v, (SNum, float)):
        return 'real'
    return builtins.type(v)


class Cut:
    """The run-time side of one cut function."""
    poison = POISON

    def __init__(self, E, fname, invs, names):
        self.E, self.fname, self.invs, self.names = E, fname, invs, names

    @staticmethod
    def range(*a):
        lo, hi = (0, a[0]) if len(a) == 1 else a
        return zi(lo), zi(hi)

    @staticmethod
    def plain(r):
        return tuple(v.as_long() for v in r)

    @staticmethod
    def use(d, rng=None):
        """Loops over sizes that are known are left as they are."""
        if rng is not None:
            return not all(z3.is_int_value(v) for v in rng)
        for v in d.values():
            for w in (v, getattr(v, '__dict__', {}).get('_points')):
                if isinstance(w, SymSeq) and not z3.is_int_value(w.n):
                    return True
        return False

    def _claims(self, k, d):
        return self.invs[k](View(d))

    def _plain(self, k, d):
        return [c for c in self._claims(k, d) if len(c) == 2]

    def _measures(self, k, d):
        return [c for c in self._claims(k, d) if len(c) == 3]

    def _check(self, k, d, when):
        E = self.E
        for label, c in self._plain(k, d):
            label = 'loop %d of %s: %s (%s)' % (k, self.fname, label, when)
            if isinstance(c, Forall):
                j = mk(z3.Int(E.path.fresh('any')))
                c.node.at(j.z)
                c = c.claim(j)
                if c is None:
                    continue
            if not E.lemma(label, c):
                raise Unsupported('not proved: ' + label)

    def enter(self, k, d, rng=None):
        E = self.E
        E.path.abstract = True
        new = dict(d)
        if rng is not None:
            new['k'] = mk(rng[0])
        self._check(k, new, 'on entry')
        out = {}
        for v in self.names[k]:
            cur = d.get(v, POISON)
            if cur is POISON:
                out[v] = POISON
            elif isinstance(cur, (bool, SBool)):
                out[v] = sym.SBool(z3.Bool(E.path.fresh(self.fname + '.' + v)))
            elif isinstance(cur, SNum) and not cur.isint or isinstance(cur, float):
                out[v] = SNum(z3.Real(E.path.fresh(self.fname + '.' + v)))
            elif isinstance(cur, (builtins.int, SNum)):
                out[v] = SNum(z3.Int(E.path.fresh(self.fname + '.' + v)))
            else:
                raise Unsupported('cut loop changes a %s' % type(cur).__name__)
        new.update(out)
        if rng is not None:
            i = z3.Int(E.path.fresh(self.fname + '.k'))
            E.path.add(z3.And(i >= rng[0], z3.Or(i <= rng[1], i == rng[0])))
            new['k'] = out['__k'] = SNum(i)
            out['__range'] = rng
        for label, c in self._plain(k, new):
            if isinstance(c, Forall):
                c.node.schema(c.claim)
            else:
                z = z3.simplify(sym.bz(c))
                if z3.is_false(z):
                    raise engine.PathEnd()
                if not z3.is_true(z):
                    E.path.add(z)
        out['__measures'] = [m for _, m, _ in self._measures(k, new)]
        return out

    def more(self, new):
        return engine.branch(z3.simplify(new['__k'].z < new['__range'][1]))

    def item(self, new):
        return new['__k']

    def back(self, k, d, new):
        d = dict(d)
        if '__k' in new:
            d['k'] = new['__k'] + 1
        for v in self.names[k]:
            a, b = new[v], d.get(v, POISON)
            if a is POISON:
                continue
            if _kind(a) != _kind(b):
                raise Unsupported('a cut loop changes the type of ' + v)
        self._check(k, d, 'kept')
        for (label, m, _), old in zip(self._measures(k, d), new['__measures']):
            label = 'loop %d of %s: %s' % (k, self.fname, label)
            if not self.E.lemma(label, self.E.and_(0 <= m, m < old)):
                raise Unsupported('not proved: ' + label)
        raise engine.PathEnd()


_compiled = {}


def find(cp, dotted):
    """'points.Points._domain_indexes' -> (function, module)"""
    import importlib
    parts = dotted.split('.')
    m = importlib.import_module('curvepy.' + parts[0])
    f = m
    for p in parts[1:]:
        f = inspect.getattr_static(f, p) if inspect.isclass(f) else getattr(f, p, None)
        if f is None:
            raise Unsupported('no function ' + dotted)
    f = getattr(f, '__wrapped_pure__', f)
    if not inspect.isfunction(f):
        raise Unsupported(dotted + ' is not a function')
    return f, m


def install(E, dotted, invs):
    """Cut the loops of a function at the given invariants until `restore`."""
    try:
        f, m = find(E.cp, dotted)
    except AttributeError:
        raise Unsupported('no function ' + dotted)
    key = f.__code__
    if key not in _compiled:
        src = textwrap.dedent(inspect.getsource(f))
        tree = ast.parse(src)
        fd = tree.body[0]
        fd.decorator_list = []
        cutter = Cutter(set(invs))
        tree = cutter.visit(tree)
        if set(cutter.found) != set(invs):
            raise Unsupported('the loops of %s are not those of its contract' % dotted)
        ast.fix_missing_locations(tree)
        ast.increment_lineno(tree, f.__code__.co_firstlineno - 1)
        ns = {}
        exec(compile(tree, f.__code__.co_filename, 'exec'), dict(m.__dict__), ns)
        new = ns[fd.name].__code__
        if new.co_freevars or f.__code__.co_freevars:
            raise Unsupported('cut of a closure')
        _compiled[key] = (new, cutter.found)
    new, names = _compiled[key]
    E.patches.append((f, f.__code__))
    name = '__dv_cut'
    cut = Cut(E, dotted.split('.')[-1], invs, names)
    # one global per function: rename in the code object
    g = '__dv_cut_' + dotted.replace('.', '_')
    code = new.replace(co_names=tuple(g if x == name else x for x in new.co_names))
    m.__dict__[g] = cut
    f.__code__ = code


def shim(E, m):
    """len and list of a module understand series."""
    for k, v in SHIMS.items():
        if k in m.__dict__ and m.__dict__[k] is not v:
            raise Unsupported('%s is redefined by the module' % k)
        m.__dict__[k] = v
    E.unshim.append(m)


def restore(E):
    for f, code in reversed(E.patches):
        f.__code__ = code
    E.patches = []
    for m in E.unshim:
        for k in SHIMS:
            m.__dict__.pop(k, None)
    E.unshim = []
