"""Opaque operands: curves about which a contract assumes nothing but the interface."""
import math

NONE = -98765.5        # stands for None among the arguments of an opaque stepping function


def abs_curve(E, name, domain=None, kinds=None, none=True, min_step=None, lo=None, lo_open=False,
              stepper=False, mono_step=False, outside=None):
    """A curve with an arbitrary domain and an arbitrary value (or none) at each x of it.

    stepper    x_next/x_previous/d_y are arbitrary functions of their arguments too
               (calls are recorded in .calls); otherwise Curve's own are used
    """
    if domain is None:
        domain = E.interval(name + '.D', kinds) if kinds else E.interval(name + '.D')
    f = E.fn(name, lo=lo, lo_open=lo_open)
    g = E.fn(name + '.missing', ret='bool') if none else None
    nx = E.fn(name + '.next', arity=3) if stepper else None
    pv = E.fn(name + '.prev', arity=3) if stepper else None
    dy = E.fn(name + '.slope', arity=2) if stepper else None
    nn = E.fn(name + '.nostep', arity=2, ret='bool') if stepper else None

    def num(v):
        return NONE if v is None else v

    class Opaque(E.cp.Curve):
        def __init__(self):
            super().__init__(min_step=min_step)
            self.calls = []
            self.D = domain

        def get_domain(self):
            return self.D

        def y(self, x):
            if x is None or not E.decide(E.inside(self.D, x)):
                return None
            if isinstance(x, float) and math.isinf(x):
                return outside
            if g is not None and E.decide(g(x)):
                return None
            return f(x)

        def __repr__(self):
            return name

    if stepper:
        def x_next(self, x, min_step=1e-5, limit=None):
            self.calls.append(('next', x, min_step, limit))
            if E.decide(nn(x, 1)):
                return None
            return nx(x, num(min_step), num(limit))

        def x_previous(self, x, min_step=1e-5, limit=None):
            self.calls.append(('prev', x, min_step, limit))
            if E.decide(nn(x, -1)):
                return None
            return pv(x, num(min_step), num(limit))

        def d_y(self, x, forward=False, min_step=1e-5, limit=None):
            self.calls.append(('slope', x, forward))
            if E.decide(nn(x, 2 if forward else -2)):
                return None
            return dy(x, 1 if forward else 0)
        Opaque.x_next, Opaque.x_previous, Opaque.d_y = x_next, x_previous, d_y
    return Opaque()


def opt_fn(E, name, arity=1, none=True):
    """An arbitrary callable of x that may also yield None."""
    f = E.fn(name)
    g = E.fn(name + '.missing', ret='bool') if none else None

    def call(x):
        if g is not None and E.decide(g(x)):
            return None
        return f(x)
    return call


def same_set(E, label, dom, member, name='t'):
    """dom, as a set of reals, is exactly {t | member(t)}."""
    t = E.real(name)
    E.check(label, E.iff(E.inside(dom, t), member(t)))


class Watch:
    """Records the notifications of a curve."""

    def __init__(self, curve, log=None, tag=None):
        self.log = [] if log is None else log
        self.tag = tag
        self.token = curve.add_observer(begin=self.begin, end=self.end)

    def begin(self, d):
        self.log.append(('begin', d) if self.tag is None else ('begin', d, self.tag))

    def end(self, d):
        self.log.append(('end', d) if self.tag is None else ('end', d, self.tag))

    @property
    def kinds(self):
        return [e[0] for e in self.log]
