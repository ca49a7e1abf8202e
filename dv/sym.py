"""Symbolic values: proxies for Python numbers and booleans over z3 terms.

SNum   a *finite* real or integer (infinities and NaN are always concrete Python
       floats, so every operation between an SNum and an infinity is decided here)
SBool  a boolean; using it in a condition forks the current path

Machine floats are treated as mathematical reals (a stated assumption).
"""
import math
from fractions import Fraction
from numbers import Number

import z3

from . import engine


class Unsupported(BaseException):
    """The code reached an operation the symbolic domain does not cover."""


_REAL = z3.RealSort()
_INT = z3.IntSort()
INF = math.inf


def _rv(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        f = Fraction(repr(float(v)))
        return z3.RealVal(f)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise Unsupported('number %r' % (type(v),))


def is_num(v):
    return isinstance(v, (SNum, int, float, Fraction)) and not isinstance(v, SBool)


def _coerce(o):
    """-> ('s', z3 term) | ('inf', float) | ('nan', float) | None"""
    if isinstance(o, SNum):
        return ('s', o.z)
    if isinstance(o, SBool):
        return ('s', z3.If(o.z, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(o, bool) or isinstance(o, int) or isinstance(o, Fraction):
        return ('s', _rv(o))
    if isinstance(o, float):
        if math.isinf(o):
            return ('inf', o)
        if math.isnan(o):
            return ('nan', o)
        return ('s', _rv(o))
    if hasattr(o, 'dtype') and hasattr(o, 'item'):
        return _coerce(o.item())
    return None


def _real(z):
    return z3.ToReal(z) if z.sort() == _INT else z


def _match(a, b):
    if a.sort() == b.sort():
        return a, b
    return _real(a), _real(b)


def _simp(z):
    return z3.simplify(z)


def mk(z):
    """Wrap a z3 term, folding constants back to Python numbers where exact."""
    z = _simp(z)
    if z3.is_int_value(z):
        return z.as_long()
    # a constant real stays a term: Python would round the results of operations on it
    return SNum(z)


def mkb(z):
    z = _simp(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def bz(b):
    """z3 Bool of a bool/SBool."""
    if isinstance(b, SBool):
        return b.z
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if isinstance(b, SNum):
        return b.z != 0
    return z3.BoolVal(bool(b))


class SBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return engine.branch(self.z)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkb(self.z == bz(o))
        if is_num(o):
            c = _coerce(o)
            if c[0] != 's':
                return False
            return mkb(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)) == c[1])
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkb(z3.Not(bz(r)))

    def __and__(self, o):
        return mkb(z3.And(self.z, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.z, bz(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.z, bz(o)))
    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported('~bool')

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def _num(self):
        return SNum(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SBool(%s)' % self.z


_uf_cache = {}


def uf(name, arity, ret='real'):
    k = (name, arity, ret)
    if k not in _uf_cache:
        r = {'real': _REAL, 'int': _INT, 'bool': z3.BoolSort()}[ret]
        _uf_cache[k] = z3.Function(name, *([_REAL] * arity), r)
    return _uf_cache[k]


def apply_uf(name, args, ret='real'):
    zs = []
    for a in args:
        c = _coerce(a)
        if c is None or c[0] != 's':
            raise Unsupported('uninterpreted %s of %r' % (name, a))
        zs.append(_real(c[1]))
    t = uf(name, len(zs), ret)(*zs)
    return mkb(t) if ret == 'bool' else mk(t)


class SNum:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @property
    def isint(self):
        return self.z.sort() == _INT

    # -- comparisons
    def _cmp(self, o, op):
        c = _coerce(o)
        if c is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        k, v = c
        if k == 'nan':
            return op == '!='
        if k == 'inf':
            pos = v > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[op]
        a, b = _match(self.z, v)
        return mkb({'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                    '>=': lambda: a >= b, '==': lambda: a == b,
                    '!=': lambda: a != b}[op]())

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def __hash__(self):
        if z3.is_rational_value(self.z):
            f = Fraction(self.z.numerator_as_long(), self.z.denominator_as_long())
            return hash(f)
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        return engine.branch(_simp(self.z != 0))

    # -- arithmetic
    def _bin(self, o, op, rev=False):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        k, v = c
        if k == 'nan':
            return math.nan
        if k == 'inf':
            return self._bin_inf(v, op, rev)
        a, b = (v, self.z) if rev else (self.z, v)
        if op == '+':
            a, b = _match(a, b)
            return mk(a + b)
        if op == '-':
            a, b = _match(a, b)
            return mk(a - b)
        if op == '*':
            a, b = _match(a, b)
            return mk(a * b)
        if op == '/':
            a, b = _real(a), _real(b)
            if engine.branch(_simp(b == 0)):
                raise ZeroDivisionError('float division by zero')
            return mk(_div(a, b))
        if op in ('//', '%'):
            isint = a.sort() == _INT and b.sort() == _INT
            if engine.branch(_simp(b == 0)):
                raise ZeroDivisionError('modulo by zero')
            if isint and z3.is_int_value(_simp(b)) and _simp(b).as_long() > 0:
                return mk(a / b) if op == '//' else mk(a % b)
            ra, rb = _real(a), _real(b)
            q = zfloor(_div(ra, rb))
            if op == '//':
                return mk(q) if isint else mk(z3.ToReal(q))
            r = ra - rb * z3.ToReal(q)
            return mk(z3.ToInt(r)) if isint else mk(r)
        raise Unsupported(op)

    def _bin_inf(self, v, op, rev):
        if op == '+':
            return v
        if op == '-':
            return v if rev else -v
        if op == '*':
            if engine.branch(_simp(self.z == 0)):
                return math.nan
            return v if engine.branch(_simp(self.z > 0)) else -v
        if op == '/':
            if not rev:
                return 0.0
            if engine.branch(_simp(self.z == 0)):
                raise ZeroDivisionError('float division by zero')
            return v if engine.branch(_simp(self.z > 0)) else -v
        raise Unsupported('%s with infinity' % op)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __floordiv__(self, o): return self._bin(o, '//')
    def __rfloordiv__(self, o): return self._bin(o, '//', True)
    def __mod__(self, o): return self._bin(o, '%')
    def __rmod__(self, o): return self._bin(o, '%', True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, m=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self): return mk(-self.z)
    def __pos__(self): return self

    def __abs__(self):
        return mk(z3.If(self.z >= 0, self.z, -self.z))

    # -- conversions
    def __floor__(self):
        return mk(self.z if self.isint else zfloor(self.z))

    def __ceil__(self):
        return mk(self.z if self.isint else -zfloor(-self.z))

    def __trunc__(self):
        if self.isint:
            return self
        if engine.implied(self.z >= 0):
            return mk(zfloor(self.z))
        return mk(z3.If(self.z >= 0, zfloor(self.z), -zfloor(-self.z)))

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported('round to digits')
        if self.isint:
            return self
        # round half to even
        f = zfloor(self.z)
        d = self.z - z3.ToReal(f)
        half = z3.RealVal(Fraction(1, 2))
        return mk(z3.If(d < half, f, z3.If(d > half, f + 1,
                                           z3.If(f % 2 == 0, f, f + 1))))

    def __int__(self):
        return engine.concretise(self.__trunc__())

    def __index__(self):
        if not self.isint:
            raise TypeError('list indices must be integers, not float')
        return engine.concretise(self)

    def __float__(self):
        raise Unsupported('float() of a symbolic number outside the shims')

    def is_integer(self):
        if self.isint:
            return True
        return mkb(z3.ToReal(zfloor(self.z)) == self.z)

    def __format__(self, spec):
        return '<num>'

    def __repr__(self):
        return '<num>'
    __str__ = __repr__


Number.register(SNum)


def _div(a, b):
    """a / b with b known non-zero; products are normalised away where z3 can."""
    a, b = _simp(a), _simp(b)
    if z3.is_rational_value(b):
        return a / b
    if a.eq(b):
        return z3.RealVal(1)
    # cancel a common factor (k*b)/b, also inside sums
    q = engine.poly_div(a, b)
    if q is not None:
        return q
    q = a / b
    if getattr(engine.CTX, 'linear_hints', False):
        # facts about the quotient that save the solver from reasoning about products
        engine.axiom(z3.Implies(b > 0, z3.And((a >= 0) == (q >= 0), (a <= 0) == (q <= 0),
                                              (a < b) == (q < 1), (a <= b) == (q <= 1))))
    return q


def zfloor(z):
    return engine.floor_term(_simp(z))


def power(a, b):
    ca, cb = _coerce(a), _coerce(b)
    if ca is None or cb is None:
        return NotImplemented
    if ca[0] == 'nan' or cb[0] == 'nan':
        return math.nan
    if cb[0] == 's' and not isinstance(b, SNum):
        # concrete exponent
        if isinstance(b, float) and b == int(b) and abs(b) <= 8:
            bi = int(b)
        elif isinstance(b, int) and abs(b) <= 8:
            bi = b
        else:
            bi = None
        if bi is not None and ca[0] == 's':
            r = 1
            for _ in range(abs(bi)):
                r = r * a
            if bi < 0:
                return 1 / r
            return r
    if ca[0] == 'inf' or cb[0] == 'inf':
        raise Unsupported('power with infinity')
    za, zb = _real(ca[1]), _real(cb[1])
    if engine.branch(_simp(za > 0)):
        r = uf('pow', 2)(za, zb)
        engine.axiom(r > 0)
        engine.axiom(z3.Implies(zb == 0, r == 1))
        engine.axiom(z3.Implies(zb == 1, r == za))
        return mk(r)
    if engine.branch(_simp(za == 0)):
        if engine.branch(_simp(zb > 0)):
            return 0.0
        if engine.branch(_simp(zb == 0)):
            return 1.0
        raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    raise Unsupported('power of a negative number')
