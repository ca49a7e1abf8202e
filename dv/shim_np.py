"""Stand-in for numpy on symbolic numbers.

Concrete calls go to the real numpy.  On symbolic numbers the few array operations
the package uses are plain list arithmetic, and the two external solvers are given
by contract (trusted):  numpy.linalg.lstsq(A, b) returns a w that satisfies the normal
equations A^T A w = A^T b, and polyfit(x, y, 1) the (m, c) of the same fit.
"""
import types

import numpy as _np

from . import engine, sym
from .sym import SNum, Unsupported


def has_sym(x):
    if isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return isinstance(x, SNum)


def _list(x):
    if isinstance(x, SArr):
        return x.data
    if isinstance(x, _np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_list(v) for v in x]
    return x


def _map2(f, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            if len(a) == 1:
                a = a * len(b)
            elif len(b) == 1:
                b = b * len(a)
            else:
                raise ValueError('operands could not be broadcast together')
        return [_map2(f, p, q) for p, q in zip(a, b)]
    if isinstance(a, list):
        return [_map2(f, p, b) for p in a]
    if isinstance(b, list):
        return [_map2(f, a, q) for q in b]
    return f(a, b)


def _flat(d):
    if not isinstance(d, list):
        return [d]
    return [v for p in d for v in _flat(p)]


class SArr:
    def __init__(self, data):
        self.data = data

    @property
    def shape(self):
        s, d = [], self.data
        while isinstance(d, list):
            s.append(len(d))
            d = d[0] if d else None
        return tuple(s)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(_flat(self.data))

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return SArr([list(r) for r in zip(*self.data)])

    def transpose(self):
        return self.T

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return (SArr(v) if isinstance(v, list) else v for v in self.data)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) != 2:
                raise Unsupported('array index')
            rows = self.data[k[0]]
            if isinstance(k[0], slice):
                r = [row[k[1]] for row in rows]
            else:
                r = rows[k[1]]
        else:
            r = self.data[k]
        return SArr(r) if isinstance(r, list) else r

    def tolist(self):
        return self.data

    def sum(self, axis=None):
        return math_sum(self, axis)

    def mean(self, axis=None):
        return mean(self, axis)

    def dot(self, o):
        return dot(self, o)

    __matmul__ = dot

    def __add__(self, o): return SArr(_map2(lambda a, b: a + b, self.data, _list(o)))
    def __radd__(self, o): return SArr(_map2(lambda a, b: b + a, self.data, _list(o)))
    def __sub__(self, o): return SArr(_map2(lambda a, b: a - b, self.data, _list(o)))
    def __rsub__(self, o): return SArr(_map2(lambda a, b: b - a, self.data, _list(o)))
    def __mul__(self, o): return SArr(_map2(lambda a, b: a * b, self.data, _list(o)))
    def __rmul__(self, o): return SArr(_map2(lambda a, b: b * a, self.data, _list(o)))
    def __truediv__(self, o): return SArr(_map2(lambda a, b: a / b, self.data, _list(o)))
    def __neg__(self): return SArr(_map2(lambda a, b: -a, self.data, 0))

    def __pow__(self, o):
        if o != 2:
            raise Unsupported('array power')
        return self * self


def array(x, *a, **k):
    d = _list(x)
    return SArr(d)


def vstack(rows):
    out = []
    for r in rows:
        r = _list(r)
        if isinstance(r, list) and r and isinstance(r[0], list):
            out.extend(r)
        else:
            out.append(list(r) if isinstance(r, list) else [r])
    return SArr(out)


def column_stack(cols):
    return SArr([list(r) for r in zip(*[_list(c) for c in cols])])


def transpose(x):
    return SArr(_list(x)).T


def math_sum(x, axis=None):
    d = _list(x)
    if axis is not None:
        raise Unsupported('sum over an axis')
    t = 0
    for v in _flat(d):
        t = t + v
    return t


def mean(x, axis=None):
    return math_sum(x, axis) / len(_flat(_list(x)))


def dot(a, b):
    a, b = _list(a), _list(b)
    va = not (a and isinstance(a[0], list))
    vb = not (b and isinstance(b[0], list))
    if va and vb:
        return math_sum([p * q for p, q in zip(a, b)])
    if vb:
        return SArr([dot(r, b) for r in a])
    if va:
        return SArr([dot(a, list(c)) for c in zip(*b)])
    return SArr([[dot(r, list(c)) for c in zip(*b)] for r in a])


_count = [0]


def _fresh(n):
    out = []
    for _ in range(n):
        out.append(engine.CTX.fresh('lstsq'))
    import z3
    return [SNum(z3.Real(v)) for v in out]


def lstsq(A, b, rcond=None):
    A, b = _list(A), _list(b)
    if len(A) != len(b):
        raise ValueError('incompatible dimensions')
    n = len(A[0])
    w = _fresh(n)
    for j in range(n):
        s = 0
        for row, y in zip(A, b):
            e = -y
            for i in range(n):
                e = e + row[i] * w[i]
            s = s + row[j] * e
        engine.CTX.axiom(sym.bz(s == 0))
    return SArr(w), SArr([]), n, SArr([])


def polyfit(x, y, deg):
    x, y = _list(x), _list(y)
    if deg != 1:
        raise Unsupported('polyfit of degree %r' % deg)
    return lstsq([[v, 1] for v in x], y)[0]


def poly1d(c):
    c = _list(c)

    def f(x):
        r = 0
        for v in c:
            r = r * x + v
        return r
    return f


def _ones(n, *a, **k):
    return _np.ones(n)


OVER = {'array': array, 'asarray': array, 'vstack': vstack, 'column_stack': column_stack, 'stack': vstack,
        'transpose': transpose, 'sum': math_sum, 'mean': mean, 'dot': dot, 'polyfit': polyfit, 'poly1d': poly1d}


class _Linalg(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def __getattr__(self, n):
        f = getattr(_np.linalg, n)

        def g(*a, **k):
            if any(has_sym(v) for v in a):
                if n == 'lstsq':
                    return lstsq(*a, **k)
                raise Unsupported('numpy.linalg.%s' % n)
            return f(*a, **k)
        return g


class _Numpy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.linalg = _Linalg()

    def __getattr__(self, n):
        f = getattr(_np, n)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            if any(has_sym(v) for v in a):
                if n in OVER:
                    return OVER[n](*a, **k)
                raise Unsupported('numpy.%s' % n)
            return f(*a, **k)
        return g


numpy = _Numpy()
