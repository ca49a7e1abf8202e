"""The contract API `E`, shared by the prover and by the concrete replays.

A contract is a function of one argument E.  It draws inputs (E.real, E.pick,
E.fn ...), states preconditions (E.assume), calls the real code, and states
postconditions (E.check).  `SymE` (in symharness.py) gives every draw its full
domain and turns every check into proof obligations; `ConcE` below runs the very
same contract on plain Python floats against the unmodified package, either with
the values of a counterexample or with seeded random ones.
"""
import math
import random

REGISTRY = {}


class Contract:
    def __init__(self, fn, prop, name, bound, functions, splits, weight, abstract, tier):
        self.fn, self.prop, self.name, self.bound = fn, prop, name, bound
        self.functions, self.splits, self.weight = functions, splits, weight
        self.abstract = abstract
        self.tier = tier


def contract(prop, name, bound=None, functions=(), splits=None, weight=1, abstract=False, tier='quick'):
    """bound=None: the obligations quantify over every input the contract admits.
    bound='...': sizes are enumerated up to the stated bound (a labelled stand-in)."""
    def deco(fn):
        c = Contract(fn, prop, name, bound, list(functions), splits, weight, abstract, tier)
        if name in REGISTRY:
            raise Exception('duplicate contract ' + name)
        REGISTRY[name] = c
        return fn
    return deco


class Discard(BaseException):
    """Inputs outside the precondition."""


class Violation(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Outcome:
    """Result of E.call: either a value or an exception."""
    __slots__ = ('value', 'exc')

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def raised(self):
        return self.exc is not None


class BaseE:
    mode = None
    param = None          # value of this job's split parameter

    # ---- composite draws, written over the primitive ones ---------------------
    def posreal(self, name, hi=None):
        return self.real(name, lo=0, lo_open=True, hi=hi)

    def optreal(self, name):
        """A real or None."""
        if self.pick(name + '.none', [False, True]):
            return None
        return self.real(name)

    def interval(self, name, kinds=('empty', 'point', 'finite', 'ninf', 'pinf', 'inf')):
        I = self.Interval
        k = self.pick(name + '.kind', list(kinds))
        if k == 'empty':
            return I.empty()
        if k == 'inf':
            return I.infinite()
        if k == 'point':
            return I.point(self.real(name + '.at'))
        if k == 'finite':
            a = self.real(name + '.a')
            b = a + self.posreal(name + '.len')
            return I(a, b, start_open=self.bool(name + '.so'), end_open=self.bool(name + '.eo'))
        if k == 'closed':
            a = self.real(name + '.a')
            b = a + self.posreal(name + '.len')
            return I(a, b)
        if k == 'ninf':
            return I(-math.inf, self.real(name + '.b'), start_open=True, end_open=self.bool(name + '.eo'))
        if k == 'pinf':
            return I(self.real(name + '.a'), math.inf, start_open=self.bool(name + '.so'), end_open=True)
        raise Exception(k)

    def xs(self, name, n, uniform=False, gap=0):
        """n strictly ascending abscissae (gaps > gap)."""
        if n == 0:
            return []
        x = self.real(name + '.x0')
        out = [x]
        h = None
        for i in range(1, n):
            if uniform:
                if h is None:
                    h = self.real(name + '.h', lo=gap, lo_open=True)
                x = out[0] + h * i
            else:
                x = x + self.real('%s.dx%d' % (name, i), lo=gap, lo_open=True)
            out.append(x)
        return out

    def pts(self, name, n, uniform=False, none_y=False, gap=0):
        out = []
        for i, x in enumerate(self.xs(name, n, uniform, gap)):
            if none_y and self.pick('%s.y%d.none' % (name, i), [False, True]):
                y = None
            else:
                y = self.real('%s.y%d' % (name, i))
            out.append((x, y))
        return out

    # ---- logic ---------------------------------------------------------------
    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def raises(self, fn, *a, **k):
        return self.call(fn, *a, **k).raised

    def ok(self, label, fn, *a, **k):
        """Call that the contract says must not raise."""
        o = self.call(fn, *a, **k)
        if o.raised:
            self.check(label + ' (must not raise, raised %s)' % type(o.exc).__name__, False,
                       detail=repr(o.exc)[:200])
            self.end()
        return o.value

    # set theory on intervals, written from the mathematics and not from intervalpy
    def inside(self, d, x):
        """x is a member of the interval d (x may be a concrete infinity)."""
        if d is None or x is None:
            return False
        if self.is_empty(d):
            return False
        if isinstance(x, float) and math.isinf(x):
            return d.end == x if x > 0 else d.start == x
        return self.and_(self.or_(x > d.start, self.and_(x == d.start, self.not_(d.start_open))),
                         self.or_(x < d.end, self.and_(x == d.end, self.not_(d.end_open))))

    def is_empty(self, d):
        return self.decide(self.and_(d.start == d.end, self.or_(d.start_open, d.end_open)))

    def same_interval(self, a, b):
        ea, eb = self.is_empty(a), self.is_empty(b)
        if ea or eb:
            return ea == eb
        return self.and_(self.same(a.start, b.start), self.same(a.end, b.end),
                         self.iff(a.start_open, b.start_open), self.iff(a.end_open, b.end_open))


_GRID = [i / 4 for i in range(-24, 25)]


class ConcE(BaseE):
    """Concrete execution on CPython floats."""
    mode = 'concrete'
    REL = 1e-6

    def __init__(self, cp, Interval, draws=None, rng=None, param=None):
        self.cp, self.Interval = cp, Interval
        self.draws = draws
        self.rng = rng or random.Random(0)
        self.drawn = {}
        self.checks = 0
        self.param = param
        self.pool = []
        self.size = 1.0           # of the largest number drawn
        self.seen = {}
        self.labels = set()

    def _name(self, name):
        n = self.seen.get(name, 0)
        self.seen[name] = n + 1
        return name if n == 0 else '%s!%d' % (name, n)

    def _take(self, name, gen):
        name = self._name(name)
        if self.draws is not None and name in self.draws:
            v = self.draws[name]
            if isinstance(v, dict) and 'frac' in v:
                v = v['frac'][0] / v['frac'][1]
        else:
            v = gen()
        self.drawn[name] = v
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            self.size = max(self.size, abs(v))
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        def gen():
            r = self.rng
            for _ in range(50):
                if self.pool and r.random() < 0.45:
                    v = r.choice(self.pool)
                    if r.random() < 0.5:
                        v = v + r.choice([-1, -0.5, -0.25, 0.25, 0.5, 1])
                elif lo is not None and hi is not None:
                    v = lo + (hi - lo) * r.choice(range(0, 9)) / 8
                elif lo is not None:
                    v = lo + r.choice([0, 0.25, 0.5, 0.5, 1, 1, 1, 1.5, 2, 3])
                elif hi is not None:
                    v = hi - r.choice([0, 0.25, 0.5, 0.5, 1, 1, 1, 1.5, 2, 3])
                else:
                    v = r.choice(_GRID)
                if lo is not None and (v < lo or (lo_open and v <= lo)):
                    continue
                if hi is not None and (v > hi or (hi_open and v >= hi)):
                    continue
                v = round(v * 1024) / 1024 if lo is None or abs(v) >= 1 / 16 else v
                return float(v)
            raise Discard()
        v = self._take(name, gen)
        self.pool.append(v)
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            raise Discard()
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            raise Discard()
        return v

    def int(self, name, lo=None, hi=None):
        a = lo if lo is not None else -6
        b = hi if hi is not None else a + 12
        v = int(self._take(name, lambda: self.rng.randint(a, b)))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def bool(self, name):
        return bool(self._take(name, lambda: self.rng.random() < 0.5))

    def pick(self, name, options):
        i = self._take(name, lambda: self.rng.randrange(len(options)))
        return options[i]

    def fn(self, name, arity=1, ret='real', lo=None, hi=None, lo_open=False):
        """An arbitrary (deterministic) function of `arity` reals."""
        key = self._name(name)
        table = []
        if self.draws is not None and key in self.draws:
            table = [(tuple(a), v) for a, v in self.draws[key]]
        log = self.drawn.setdefault(key, [])
        salt = self.rng.random()
        memo = {}

        def f(*args):
            assert len(args) == arity
            args = tuple(float(a) for a in args)
            for a, v in table:
                if all(self._close(p, q) for p, q in zip(a, args)):
                    return v
            kk = tuple(round(a, 9) for a in args)
            if kk not in memo:
                r = random.Random('%r%r' % (salt, kk))
                if ret == 'bool':
                    v = r.random() < 0.6
                else:
                    for _ in range(100):
                        v = r.choice(_GRID)
                        if lo is not None and hi is not None:
                            v = lo + (hi - lo) * r.choice(range(0, 9)) / 8
                        elif lo is not None:
                            v = lo + r.choice([0, 0.25, 0.5, 1, 1, 1.5, 2, 3])
                        if lo is not None and (v < lo or (lo_open and v <= lo)):
                            continue
                        break
                memo[kk] = v if ret == "bool" else float(v)
                log.append([list(args), v])
            return memo[kk]
        return f

    def series(self, name, uniform=False, lo=0, none_y=False):
        def gen():
            r = self.rng
            n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 9])
            x, h, out = r.choice(_GRID), r.choice([0.25, 0.5, 1, 2]), []
            for i in range(n):
                out.append([x, None if none_y and r.random() < 0.3 else r.choice(_GRID)])
                x += h if uniform else r.choice([0.25, 0.5, 1, 1, 2])
            return out
        v = [tuple(p) for p in self._take(name, gen)]
        if len(v) < lo:
            raise Discard()
        for i in range(1, len(v)):
            if not v[i - 1][0] < v[i][0] or (uniform and v[i][0] - v[i - 1][0] != v[1][0] - v[0][0]):
                raise Discard()
        self.pool += [p[0] for p in v]
        return v

    def cut(self, dotted, *invs):
        pass

    def known(self, s, claim):
        for j in range(len(s)):
            c = claim(j)
            if c is not None and not c:
                raise Discard()

    def len(self, s):
        return len(s)

    def index(self, name, s, lo=0, hi=0):
        if len(s) - hi <= lo:
            raise Discard()
        return self.int(name, lo=lo, hi=len(s) - hi - 1)

    def split(self, s, left, right):
        a = sum(1 for p in s if left(p[0]))
        return a, len(s) - sum(1 for p in s if right(p[0]))

    def stored(self, s, x):
        return any(self._close(p[0], x) for p in s)

    def same_points(self, label, got, want):
        self.check(label, self.same([tuple(p) for p in got], [tuple(p) for p in want]))

    def assume(self, c):
        if not c:
            raise Discard()

    def check(self, label, claim, detail=None):
        self.checks += 1
        self.labels.add(label)
        if not claim:
            raise Violation(label, detail)

    def note(self, label):
        pass

    def lemma(self, label, claim):
        return True

    def by(self, label, prop, *args):
        return True

    def unsupported(self, why):
        raise Discard()

    def require(self, label, claim):
        pass

    contract = None

    def derive(self, label, claim, *hyps, lemma=False):
        if not lemma:
            self.check(label, claim)

    def end(self):
        raise Discard()

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except OverflowError:
            raise Discard()          # outside the range where floats stand for reals
        except Exception as e:
            return Outcome(exc=e)

    oracle = call

    def _close(self, a, b):
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= max(self.REL * max(1.0, abs(a), abs(b)), 1e-9 * self.size)

    def same(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(p, q) for p, q in zip(a, b))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return self._close(a, b)
        try:
            return self._close(float(a), float(b))
        except (TypeError, ValueError):
            return a == b

    def le(self, a, b):
        return a <= b or self._close(a, b)

    def lt(self, a, b):
        """strict, but within tolerance of equality counts (floats)."""
        return a < b or self._close(a, b)

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def decide(self, c):
        return bool(c)

    # mathematics available to specifications
    def floor(self, x):
        return math.floor(x)

    pi = math.pi

    def trig_sum(self, a, b, c):
        pass

    def trig_unit(self, a):
        pass

    def hypot(self, a, b): return math.hypot(a, b)
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def log(self, x): return math.log(x)
    def pow(self, a, b): return a ** b
    pi = math.pi
