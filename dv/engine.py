"""Path explorer and obligation generator.

A contract (a Python function over the harness API `E`) is executed again and
again, once per feasible path of the real code under it.  A fork happens where
Python asks a symbolic boolean for its truth value.  `E.check` generates one
obligation per path: (path condition) => (claim), which z3 must discharge.
"""
import math
import os
import sys
import time
from fractions import Fraction

import z3

z3.set_param('smt.random_seed', 0)

CTX = None          # current Path


class PathEnd(BaseException):
    """The current path is infeasible or finished early (not an error)."""


class Budget(BaseException):
    """The exploration ran out of its budget."""


class EngineError(BaseException):
    pass


BRANCH_TO = int(os.environ.get('DV_BRANCH_MS', '2000'))
OBL_TO = int(os.environ.get('DV_OBL_MS', '20000'))


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_branches = 0


class Path:
    def __init__(self, prefix, stats):
        self.prefix = prefix
        self.pos = 0
        self.trace = []           # [(decision, hash)]
        self.alts = []            # new prefixes to explore
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', BRANCH_TO)
        self.pc = []
        self.axioms = []
        self.ax_seen = set()
        self.stats = stats
        self.names = {}
        self.floor_cache = {}
        self.deadline = None
        self.abstract = False     # path used an abstraction (loop cut, lazy facts)
        self.sub = None           # sub-exploration depth marker

        self.model = None         # a model of pc, when one is at hand
        self.cache = None         # merged results by place, shared by all paths of a job
        self.nmerge = self.nimplied = self.nproved = 0

    # -- solver
    def add(self, c, keep=False):
        self.pc.append(c)
        if not keep:
            self.model = None
        self.solver.add(c)

    def sat(self, c):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(c)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown_branches += 1
        return r

    def sat_model(self, c):
        r = self.sat(c)
        return r, (self.solver.model() if r == z3.sat else None)

    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def branch(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        h = _site()
        if self.pos < len(self.prefix):
            d, hh = self.prefix[self.pos]
            if hh != h:
                raise EngineError('non-deterministic replay of a path at %d: %s' % (self.pos, c))
            self.pos += 1
            self.trace.append((d, h))
            self.add(c if d else z3.Not(c))
            return d
        nc = z3.Not(c)
        m = self.model
        known = None
        if m is not None:
            v = m.eval(c, model_completion=True)
            known = True if z3.is_true(v) else False if z3.is_false(v) else None
        if known is None:
            r1, m1 = self.sat_model(c)
        elif known:
            r1, m1 = z3.sat, m
        else:
            r1, m1 = self.sat_model(c)
        if r1 == z3.unsat:
            d = False
            if known is not False:
                self.model = None
        else:
            if known is False:
                r2 = z3.sat
            else:
                r2, _ = self.sat_model(nc)
            if r2 == z3.unsat:
                d = True
            else:
                d = True
                self.alts.append(self.trace + [(False, h)])
            self.model = m1
        self.trace.append((d, h))
        self.pos += 1
        self.add(c if d else nc, keep=True)
        return d

    def axiom(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        k = c.hash(), c.get_id()
        if k in self.ax_seen:
            return
        self.ax_seen.add(k)
        self.axioms.append(c)
        self.add(c)


_DV = os.path.dirname(os.path.abspath(__file__)) + os.sep


def _site():
    """Where the code under contract asked: guards against non-deterministic replays."""
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.startswith(_DV):
        f = f.f_back
    return (f.f_code.co_name, f.f_lineno) if f is not None else None


def branch(c):
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return CTX.branch(c)


def axiom(c):
    CTX.axiom(c)


# ---------------------------------------------------------------- merging
#
# A pure function (no effects, no draws) can be explored on its own and its paths joined
# into one value: if-then-else terms over its path conditions.  This is exact; it only
# avoids multiplying the paths of its callers.  Results that cannot be joined (None
# against a number, an infinite bound against a finite one) stay separate forks.

class _Sub:
    """Decisions of one path through a merged function, on the solver of the outer path."""

    def __init__(self, outer, prefix):
        self.outer, self.prefix = outer, prefix
        self.pos = 0
        self.trace, self.alts, self.pc = [], [], []
        self.new_axioms = []
        self.model = outer.model

    def __getattr__(self, n):
        return getattr(self.outer, n)

    def add(self, c, keep=False):
        self.pc.append(c)
        if not keep:
            self.model = None
        self.outer.solver.add(c)

    def axiom(self, c):
        c = z3.simplify(c)
        if not z3.is_true(c):
            self.new_axioms.append(z3.Implies(z3.And(*self.pc), c) if self.pc else c)
            self.outer.solver.add(c)
            self.model = None

    branch = Path.branch


class _NoMerge(BaseException):
    pass


def _shape(r):
    from .sym import SNum, SBool
    if r is None:
        return ('none',)
    if isinstance(r, (bool, SBool)):
        return ('bool',)
    if isinstance(r, SNum):
        return ('num', 'int' if r.isint else 'real')
    if isinstance(r, (int, float)):
        if isinstance(r, float) and (math.isinf(r) or math.isnan(r)):
            return ('const', repr(r))
        return ('num', 'int' if isinstance(r, int) else 'real')
    if type(r).__name__ == 'Interval':
        return ('interval', _shape(r.start), _shape(r.end))
    if isinstance(r, tuple):
        return ('tuple',) + tuple(_shape(x) for x in r)
    raise _NoMerge()


def _join(items):
    """[(condition, value)] of one shape -> value"""
    from . import sym
    v = items[0][1]
    sh = _shape(v)
    if sh[0] in ('none', 'const') or len(items) == 1:
        return v
    if sh[0] == 'bool':
        t = sym.bz(items[-1][1])
        for c, x in reversed(items[:-1]):
            t = z3.If(c, sym.bz(x), t)
        return sym.mkb(t)
    if sh[0] == 'num':
        t = sym._coerce(items[-1][1])[1]
        for c, x in reversed(items[:-1]):
            a, b = sym._match(sym._coerce(x)[1], t)
            t = z3.If(c, a, b)
        return sym.mk(t)
    if sh[0] == 'tuple':
        return tuple(_join([(c, x[i]) for c, x in items]) for i in range(len(v)))
    if sh[0] == 'interval':
        if sh[1] == ('none',):
            return v
        r = object.__new__(type(v))
        for f in ('start', 'end', 'start_open', 'end_open'):
            setattr(r, f, _join([(c, getattr(x, f)) for c, x in items]))
        return r


def _concrete(a, depth=0):
    from .sym import SNum, SBool
    if isinstance(a, (SNum, SBool)):
        return False
    if type(a).__name__ == 'Interval':
        return _concrete(a.start) and _concrete(a.end) and _concrete(a.start_open) and _concrete(a.end_open)
    if isinstance(a, (list, tuple)) and depth < 3:
        return all(_concrete(x, depth + 1) for x in a)
    return True


def merged(fn, *a, **k):
    global CTX
    p = CTX
    if p is None or (_concrete(a) and _concrete(tuple(k.values()))):
        return fn(*a, **k)
    top = p.cache is not None and isinstance(p, Path)
    if top:
        p.nmerge += 1
        key = (fn.__qualname__, p.nmerge, tuple(p.trace))
        hit = p.cache.get(key)
        if hit is not None:
            return _finish(p, *hit)
        names0 = dict(p.names)
    work, outs = [[]], []
    n = 0
    axioms = []
    solver = p.solver
    try:
        while work:
            sub = _Sub(p, work.pop())
            n += 1
            if n > 64:
                raise _NoMerge()
            solver.push()
            CTX = sub
            try:
                r = fn(*a, **k)
            except PathEnd:
                continue
            except Exception:
                raise _NoMerge()
            finally:
                CTX = p
                solver.pop()
            outs.append((z3.And(*sub.pc) if sub.pc else z3.BoolVal(True), r, _shape(r)))
            axioms += sub.new_axioms
            work.extend(sub.alts)
    except _NoMerge:
        return fn(*a, **k)
    if top and p.names == names0:
        p.cache[key] = (axioms, outs)
    return _finish(p, axioms, outs)


def _finish(p, axioms, outs):
    for c in axioms:
        p.axiom(c)
    groups = {}
    for c, r, sh in outs:
        groups.setdefault(sh, []).append((c, r))
    if ('num', 'int') in groups and ('num', 'real') in groups:
        groups[('num', 'real')] += groups.pop(('num', 'int'))
    gs = list(groups.values())
    for g in gs[:-1]:
        cond = z3.simplify(z3.Or(*[c for c, _ in g]))
        if branch(cond):
            return _join(g)
    if not gs:
        raise PathEnd()
    return _join(gs[-1])


def pure(fn):
    import functools

    @functools.wraps(fn)
    def w(*a, **k):
        return merged(fn, *a, **k)
    w.__wrapped_pure__ = fn
    return w


def implied(c):
    """True when the path condition implies c (no fork); False when unknown."""
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    p = CTX
    if p.cache is None or not isinstance(p, Path):
        return p.sat(z3.Not(c)) == z3.unsat
    # every path that shares these decisions asks the same question
    p.nimplied += 1
    key = ('implied', p.nimplied, tuple(p.trace))
    r = p.cache.get(key)
    if r is None:
        if p.model is not None and z3.is_false(p.model.eval(c, model_completion=True)):
            r = False
        else:
            q, m = p.sat_model(z3.Not(c))
            r = q == z3.unsat
            if m is not None and p.model is None:
                p.model = m
        p.cache[key] = r
    return r


def floor_term(z):
    if z3.is_rational_value(z):
        f = Fraction(z.numerator_as_long(), z.denominator_as_long())
        return z3.IntVal(f.__floor__())
    if z.decl().kind() == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    p = CTX
    if getattr(p, 'linear_hints', False) and z3.is_add(z):
        # split off an integer-valued part: floor(k + t) = k + floor(t)
        ints = [c for c in z.children() if c.decl().kind() == z3.Z3_OP_TO_REAL]
        rest = [c for c in z.children() if c.decl().kind() != z3.Z3_OP_TO_REAL]
        if ints and rest:
            k = ints[0].arg(0)
            for c in ints[1:]:
                k = k + c.arg(0)
            t = rest[0]
            for c in rest[1:]:
                t = t + c
            return k + floor_term(z3.simplify(t))
    key = z.get_id()
    if key in p.floor_cache:
        return p.floor_cache[key][1]
    for k2, (t2, f2) in p.floor_cache.items():
        if t2.eq(z):
            return f2
    f = z3.Int(p.fresh('floor'))
    p.axiom(z3.And(z3.ToReal(f) <= z, z < z3.ToReal(f) + 1))
    p.floor_cache[key] = (z, f)
    return f


def concretise(v, lo=None):
    """Fork over the feasible values of a symbolic integer."""
    from .sym import SNum
    if not isinstance(v, SNum):
        return int(v)
    p = CTX
    tried = 0
    while True:
        if p.pos < len(p.prefix):
            # value to try was recorded in the prefix
            d, hh = p.prefix[p.pos]
            val = hh[1]
            c = v.z == val
            p.pos += 1
            p.trace.append((d, hh))
            p.add(c if d else z3.Not(c))
            if d:
                return val
            continue
        r = p.sat(z3.BoolVal(True))
        if r == z3.unsat:
            raise PathEnd()
        if r == z3.unknown:
            from .sym import Unsupported
            raise Unsupported('cannot enumerate an index (solver unknown)')
        m = p.solver.model()
        val = m.eval(v.z, model_completion=True).as_long()
        tried += 1
        if tried > 64:
            from .sym import Unsupported
            raise Unsupported('index with more than 64 values')
        c = v.z == val
        hh = ('val', val)
        if p.sat(z3.Not(c)) != z3.unsat:
            p.alts.append(p.trace + [(False, hh)])
        p.trace.append((True, hh))
        p.pos += 1
        p.add(c)
        return val


# ---------------------------------------------------------------- polynomials

def _poly(t):
    """z3 real term -> {monomial(tuple of (atom id, exp)): Fraction}, atoms"""
    atoms = {}

    def go(t):
        if z3.is_rational_value(t):
            c = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): c} if c else {}
        if z3.is_int_value(t):
            return {(): Fraction(t.as_long())} if t.as_long() else {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for a in t.children():
                for m, c in go(a).items():
                    r[m] = r.get(m, 0) + c
            return {m: c for m, c in r.items() if c}
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            r = dict(go(cs[0]))
            for a in cs[1:]:
                for m, c in go(a).items():
                    r[m] = r.get(m, 0) - c
            return {m: c for m, c in r.items() if c}
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in go(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for a in t.children():
                r = _pmul(r, go(a))
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)):
            d = t.arg(1)
            f = Fraction(d.numerator_as_long(), d.denominator_as_long())
            return {m: c / f for m, c in go(t.arg(0)).items()}
        if k == z3.Z3_OP_TO_REAL:
            a = t.arg(0)
            if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                return {tuple((('i', i) if not isinstance(i, tuple) else i, e) for i, e in m): c
                        for m, c in go_int(a).items()}
            if z3.is_int_value(a):
                return {(): Fraction(a.as_long())} if a.as_long() else {}
            atoms[('i', a.get_id())] = t
            return {((('i', a.get_id()), 1),): Fraction(1)}
        atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}

    def go_int(a):
        k = a.decl().kind()
        if z3.is_int_value(a):
            return {(): Fraction(a.as_long())} if a.as_long() else {}
        if k == z3.Z3_OP_ADD:
            r = {}
            for b in a.children():
                for m, c in go_int(b).items():
                    r[m] = r.get(m, 0) + c
            return {m: c for m, c in r.items() if c}
        if k == z3.Z3_OP_SUB:
            cs = a.children()
            r = dict(go_int(cs[0]))
            for b in cs[1:]:
                for m, c in go_int(b).items():
                    r[m] = r.get(m, 0) - c
            return {m: c for m, c in r.items() if c}
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in go_int(a.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for b in a.children():
                r = _pmul(r, go_int(b))
            return r
        atoms[('i', a.get_id())] = z3.ToReal(a)
        return {((('i', a.get_id()), 1),): Fraction(1)}

    return go(t), atoms


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda ae: str(ae[0])))


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def _mdiv(m1, m2):
    d = dict(m1)
    for a, e in m2:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda ae: str(ae[0])))


def _key(m):
    return (sum(e for _, e in m), tuple((str(a), e) for a, e in m))


def poly_div(a, b):
    """Exact quotient a/b as a z3 term when b divides a as polynomials."""
    try:
        pa, at = _poly(a)
        pb, bt = _poly(b)
    except Exception:
        return None
    if len(pb) > 6 or len(pa) > 40 or not pb:
        return None
    at.update(bt)
    lead = max(pb, key=_key)
    lc = pb[lead]
    q = {}
    rem = dict(pa)
    n = 0
    while rem:
        n += 1
        if n > 60:
            return None
        lm = max(rem, key=_key)
        m = _mdiv(lm, lead)
        if m is None:
            return None
        c = rem[lm] / lc
        q[m] = q.get(m, 0) + c
        for mm, cc in pb.items():
            t = _mmul(m, mm)
            v = rem.get(t, 0) - c * cc
            if v:
                rem[t] = v
            else:
                rem.pop(t, None)
    return _term(q, at)


def _term(p, atoms):
    ts = []
    for m, c in p.items():
        f = [atoms[a] for a, e in m for _ in range(e)]
        t = z3.RealVal(c)
        for x in f:
            t = x if (z3.is_rational_value(t) and t.as_fraction() == 1) else t * x
        ts.append(t)
    if not ts:
        return z3.RealVal(0)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return z3.simplify(r)


# ---------------------------------------------------------------- obligations

def prove(pc, claim, stats, timeout=None):
    """-> ('proved', backend, None) | ('refuted', backend, model) | ('unknown', reason, None)"""
    timeout = timeout or OBL_TO
    neg = z3.simplify(z3.Not(claim))
    if z3.is_false(neg):
        return 'proved', 'simplifier', None
    t0 = time.time()
    reason = ''
    try:
        plans = [('z3', None, min(timeout, 4000)), ('z3/qfnra', 'nra', min(timeout, 8000)),
                 ('z3/fresh-seed', 'seed', timeout)]
        for name, how, to in plans:
            if how == 'nra':
                s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'smt').solver()
            else:
                s = z3.Solver()
                if how == 'seed':
                    s.set('random_seed', 7)
            s.set('timeout', to)
            s.add(*pc)
            s.add(neg)
            stats.queries += 1
            try:
                r = s.check()
            except z3.Z3Exception as e:
                reason = str(e)
                continue
            if r == z3.unsat:
                return 'proved', name, None
            if r == z3.sat:
                return 'refuted', name, s.model()
            reason = s.reason_unknown()
        r = _cvc5(pc, neg, timeout)
        if r == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', reason, None
    finally:
        stats.solver_s += time.time() - t0


def _cvc5(pc, neg, timeout):
    import subprocess
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    s = z3.Solver()
    s.add(*pc)
    s.add(neg)
    text = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' % timeout], input=text,
                           capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
