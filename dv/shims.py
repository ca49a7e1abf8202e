"""Replacements for the C functions that cannot take a symbolic number.

They are injected as module globals next to the code under contract, and behave as
the originals on concrete values.  The math functions without algebraic meaning
(sin, cos, ln, ...) become uninterpreted functions.
"""
import builtins
import math as _math
import types

import z3

from . import engine, sym
from .sym import SNum, SBool, Unsupported, mk


def _is(x):
    return isinstance(x, SNum)


class _Math(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        f = getattr(_math, n)
        if callable(f):
            def g(*a):
                if any(_is(x) for x in a):
                    raise Unsupported('math.%s' % n)
                return f(*a)
            return g
        return f

    @staticmethod
    def isinf(x): return False if _is(x) else _math.isinf(x)
    @staticmethod
    def isnan(x): return False if _is(x) else _math.isnan(x)
    @staticmethod
    def isfinite(x): return True if _is(x) else _math.isfinite(x)
    @staticmethod
    def floor(x): return x.__floor__() if _is(x) else _math.floor(x)
    @staticmethod
    def ceil(x): return x.__ceil__() if _is(x) else _math.ceil(x)
    @staticmethod
    def trunc(x): return x.__trunc__() if _is(x) else _math.trunc(x)

    @staticmethod
    def fabs(x): return abs(x) if _is(x) else _math.fabs(x)

    @staticmethod
    def sin(x): return _trig('sin', x) if _is(x) else _math.sin(x)
    @staticmethod
    def cos(x): return _trig('cos', x) if _is(x) else _math.cos(x)

    @staticmethod
    def atan2(y, x):
        if not (_is(y) or _is(x)):
            return _math.atan2(y, x)
        # the polar form of (x, y): h sin(t) = y and h cos(t) = x for the length h
        t = sym.apply_uf('atan2', [y, x])
        h = _hypot(y, x)
        hz = sym._real(sym._coerce(h)[1])
        for f, v in (('sin', y), ('cos', x)):
            engine.axiom(hz * sym.uf(f, 1)(sym._real(sym._coerce(t)[1])) == sym._real(sym._coerce(v)[1]))
        return t

    @staticmethod
    def hypot(*a):
        if not any(_is(v) for v in a):
            return _math.hypot(*a)
        if len(a) != 2:
            raise Unsupported('hypot')
        return _hypot(*a)

    @staticmethod
    def exp(x):
        return sym.apply_uf('exp', [x]) if _is(x) else _math.exp(x)

    @staticmethod
    def sqrt(x):
        if not _is(x):
            return _math.sqrt(x)
        if x < 0:
            raise ValueError('math domain error')
        r = sym.uf('sqrt', 1)(sym._real(x.z))
        engine.axiom(z3.And(r >= 0, r * r == sym._real(x.z)))
        return mk(r)

    @staticmethod
    def pow(a, b):
        return sym.power(a, b) if (_is(a) or _is(b)) else _math.pow(a, b)

    @staticmethod
    def log(x, base=None):
        if not (_is(x) or _is(base)):
            return _math.log(x) if base is None else _math.log(x, base)
        n = _ln(x)
        if base is None:
            return n
        d = _ln(base)
        return n / d

    @staticmethod
    def log2(x):
        return _ln(x) / _ln(2) if _is(x) else _math.log2(x)

    @staticmethod
    def log10(x):
        return _ln(x) / _ln(10) if _is(x) else _math.log10(x)

    @staticmethod
    def fmod(a, b):
        if _is(a) or _is(b):
            raise Unsupported('fmod')
        return _math.fmod(a, b)

    @staticmethod
    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if not (_is(a) or _is(b)):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if any(isinstance(v, float) and _math.isinf(v) for v in (a, b)):
            return False
        d = abs(a - b)
        m = max(abs(a), abs(b))
        return d <= max(m * rel_tol, abs_tol)

    @staticmethod
    def copysign(a, b):
        if not (_is(a) or _is(b)):
            return _math.copysign(a, b)
        return abs(a) if b >= 0 else -abs(a)


def _trig(name, x):
    t = sym.uf(name, 1)(sym._real(x.z))
    engine.axiom(z3.And(t <= 1, t >= -1))
    return mk(t)


def _hypot(a, b):
    za, zb = (sym._real(sym._coerce(v)[1]) for v in (a, b))
    h = sym.uf('hypot', 2)(za, zb)
    engine.axiom(z3.And(h >= 0, h * h == za * za + zb * zb))
    return mk(h)


def _ln(x):
    if not _is(x):
        if x == _math.e:
            return 1.0
    if x <= 0:
        raise ValueError('math domain error')
    z = sym._real(sym._coerce(x)[1])
    t = sym.uf('ln', 1)(z)
    engine.axiom(z3.Implies(z == 1, t == 0))
    engine.axiom(z3.Implies(z > 1, t > 0))
    engine.axiom(z3.Implies(z < 1, t < 0))
    return mk(t)


math = _Math()


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (_is(x) and x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if _is(x):
            return x.__trunc__()
        if isinstance(x, SBool):
            return builtins.int(bool(x))
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (_is(x) and not x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if _is(x):
            return mk(sym._real(x.z))
        return builtins.float(x)


class _TypeMeta(builtins.type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if _is(x):
                return int if x.isint else float
            if isinstance(x, SBool):
                return bool
            return builtins.type(x)
        return builtins.type(*a, **k)


class type(metaclass=_TypeMeta):
    pass


class OrderedSet(list):
    """Stand-in for set(): same members, insertion order (deterministic)."""

    def __init__(self, it=()):
        super().__init__()
        for x in it:
            self.add(x)

    def add(self, x):
        for y in self:
            if y is x or (not _is(x) and not _is(y) and y == x):
                return
        self.append(x)

    def discard(self, x):
        for i, y in enumerate(self):
            if y is x:
                del self[i]
                return

    def update(self, it):
        for x in it:
            self.add(x)


INJECT = {'int': int, 'float': float, 'set': OrderedSet, 'type': type}


def inject(module):
    d = module.__dict__
    for k, v in INJECT.items():
        if k not in d:
            d[k] = v
    if d.get('math') is _math:
        d['math'] = math
    for k, v in list(d.items()):
        if getattr(v, '__name__', None) == 'numpy' and builtins.type(v) is types.ModuleType:
            from . import shim_np
            d[k] = shim_np.numpy
        # from math import floor ...
        if getattr(v, '__module__', None) == 'math' and hasattr(_math, getattr(v, '__name__', '')):
            d[k] = getattr(math, v.__name__)
