"""Contracts of intervalpy's operations, used at its call sites instead of its body.

Modular verification: a caller is checked against the contract of a dependency.  Each
contract below is a closed formula (no forks); contracts/p00_interval.py proves that the
installed intervalpy computes exactly this formula for all intervals and points, so none
of it is assumed.

An Interval is empty exactly when its start is None (Interval.__init__ normalises it).
"""
import math

import z3

from . import sym
from .sym import SNum, SBool, bz, mkb, is_num


def _and(*cs):
    return mkb(z3.And(*[bz(c) for c in cs]))


def _or(*cs):
    return mkb(z3.Or(*[bz(c) for c in cs]))


def _not(c):
    return mkb(z3.Not(bz(c)))


def _ite(c, a, b):
    z = z3.simplify(bz(c))
    if z3.is_true(z):
        return a
    if z3.is_false(z):
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkb(z3.If(z, bz(a), bz(b)))
    if is_num(a) and is_num(b):
        ca, cb = sym._coerce(a), sym._coerce(b)
        if ca[0] == 's' and cb[0] == 's':
            p, q = sym._match(ca[1], cb[1])
            return sym.mk(z3.If(z, p, q))
        if ca[0] == cb[0] and ca[1] == cb[1]:
            return a
    return a if sym.engine.branch(z) else b


def _isinf(v):
    return isinstance(v, float) and math.isinf(v)


def install(I):
    """Replace the methods; keeps the originals in I.original."""
    O = {}
    parse = I.parse

    def empty_(d):
        return d.start is None

    def init(self, start, end, start_open=False, end_open=False):
        if start is None and end is not None:
            start = -math.inf
        if end is None and start is not None:
            end = math.inf
        self.start_open = start_open
        self.end_open = end_open
        if start is None:
            self.start = self.end = None
            if not (start_open is True or end_open is True):
                # Interval(None, None): the original compares None with None
                return O['__init__'](self, start, end, start_open, end_open)
            return
        if end == start and _or(end_open, start_open):
            self.start = self.end = None
            return
        self.start = start
        self.end = end
        if _isinf(start) and not (_isinf(end) and start == end):
            self.start_open = True
        if _isinf(end) and not (_isinf(start) and start == end):
            self.end_open = True

    def is_empty(self):
        if self.start is None:
            return _or(self.start_open, self.end_open) if not (self.start_open or self.end_open) else True
        return False

    def is_negative_infinite(self):
        return _isinf(self.start) and not (_isinf(self.end) and self.start == self.end)

    def is_positive_infinite(self):
        return _isinf(self.end) and not (_isinf(self.start) and self.start == self.end)

    def contains(self, x, enforce_start=True, enforce_end=True):
        if x is None or empty_(self):
            return False
        if _isinf(x):
            return O['contains'](self, x, enforce_start, enforce_end)
        s, e, so, eo = self.start, self.end, self.start_open, self.end_open
        c = []
        at_open_start = _and(so, x == s)
        if enforce_start:
            c += [_not(x < s), _not(at_open_start)]
        if enforce_end:
            c += [_not(x > e), _not(at_open_start), _not(_and(eo, x == e))]
        return _and(*c) if c else True

    def is_superset_of(self, interval):
        if empty_(self):
            return False
        v = parse(interval)
        if empty_(v):
            return True
        u = self
        return _and(_not(u.start > v.start),
                    _not(_and(u.start == v.start, u.start_open, _not(v.start_open))),
                    _not(u.end < v.end),
                    _not(_and(u.end == v.end, u.end_open, _not(v.end_open))))

    def equals(self, interval):
        if interval is None:
            return False
        v = parse(interval)
        if empty_(self) or empty_(v):
            return empty_(self) and empty_(v)
        return _and(self.start == v.start, self.end == v.end,
                    mkb(bz(self.start_open) == bz(v.start_open)), mkb(bz(self.end_open) == bz(v.end_open)))

    def intersects(self, interval):
        if empty_(self):
            return False
        v = parse(interval)
        if empty_(v):
            return False
        u = self
        first = _and(_not(u.end < v.start),
                     _or(_not(u.end == v.start), _and(_not(u.end_open), _not(v.start_open))))
        second = _and(_not(v.end < u.start),
                      _or(_not(v.end == u.start), _and(_not(v.end_open), _not(u.start_open))))
        return _ite(u.start <= v.start, first, second)

    def lt(self, other):
        if empty_(self):
            return False
        v = parse(other)
        if empty_(v):
            return True
        return _or(self.end < v.start, _and(self.end == v.start, _or(self.end_open, v.start_open)))

    def le(self, other):
        if empty_(self):
            return False
        v = parse(other)
        if empty_(v):
            return True
        return _or(self.end < v.end,
                   _and(self.end == v.end, _not(_and(_not(self.end_open), v.end_open))))

    def make(start, end, so, eo):
        r = object.__new__(I)
        r.start, r.end, r.start_open, r.end_open = start, end, so, eo
        return r

    def fix(start, end, so, eo):
        return I(start, end, start_open=so, end_open=eo)

    def union(intervals):
        ds = [d for d in I.parse_many(intervals) if not empty_(d)]
        if not ds:
            return I.empty()
        if len(ds) == 1:
            return ds[0]
        s, so, e, eo = ds[0].start, ds[0].start_open, ds[0].end, ds[0].end_open
        for d in ds[1:]:
            s, so = _pick(d.start < s, d.start == s, (d.start, d.start_open), (s, so), _and)
            e, eo = _pick(d.end > e, d.end == e, (d.end, d.end_open), (e, eo), _and)
        return fix(s, e, so, eo)

    def intersection(intervals):
        ds = I.parse_many(intervals)
        for d in ds:
            if empty_(d):
                return I.empty()
        if not ds:
            return I.empty()
        if len(ds) == 1:
            return ds[0]
        s, so, e, eo = ds[0].start, ds[0].start_open, ds[0].end, ds[0].end_open
        for d in ds[1:]:
            s, so = _pick(d.start > s, d.start == s, (d.start, d.start_open), (s, so), _or)
            e, eo = _pick(d.end < e, d.end == e, (d.end, d.end_open), (e, eo), _or)
        if _or(s > e, _and(s == e, _or(so, eo))):
            return I.empty()
        r = make(s, e, so, eo)
        if _isinf(s) and s is not e:
            r.start_open = True
        if _isinf(e) and s is not e:
            r.end_open = True
        return r

    def _pick(better, equal, a, b, both):
        v = _ite(better, a[0], b[0])
        o = _ite(better, a[1], _ite(equal, both(a[1], b[1]), b[1]))
        return v, o

    new = {'__init__': init, 'contains': contains, 'is_superset_of': is_superset_of, 'equals': equals,
           'intersects': intersects, '__lt__': lt, '__le__': le,
           'is_empty': property(is_empty), 'is_negative_infinite': property(is_negative_infinite),
           'is_positive_infinite': property(is_positive_infinite),
           'union': staticmethod(union), 'intersection': staticmethod(intersection)}
    O.update({k: I.__dict__[k] for k in new})
    for k, v in new.items():
        setattr(I, k, v)
    I.original = O
    I.summary = new
