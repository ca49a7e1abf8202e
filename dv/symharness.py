"""The prover's side of the contract API, and the exploration driver."""
import math
import time
from fractions import Fraction

import z3

from . import engine, shims, sym
from .engine import PathEnd, Budget, EngineError
from .harness import BaseE, Outcome
from .sym import SNum, SBool, Unsupported, mk, mkb, bz


class SymE(BaseE):
    mode = 'symbolic'

    def __init__(self, cp, Interval, path, sink, param=None):
        self.cp, self.Interval = cp, Interval
        self.path, self.sink = path, sink
        self.param = param
        self.contract = sink.contract.name
        self.drawn = []          # (name, kind, payload)
        self.path_label = []
        self.patches, self.unshim = [], []

    def _bounds(self, z, lo, hi, lo_open, hi_open):
        if lo is not None:
            l = sym._coerce(lo)
            if l[0] == 's':
                a, b = sym._match(z, l[1])
                self.path.add(a > b if lo_open else a >= b)
        if hi is not None:
            h = sym._coerce(hi)
            if h[0] == 's':
                a, b = sym._match(z, h[1])
                self.path.add(a < b if hi_open else a <= b)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        n = self.path.fresh(name)
        z = z3.Real(n)
        self._bounds(z, lo, hi, lo_open, hi_open)
        self.drawn.append((n, 'real', z))
        return SNum(z)

    def int(self, name, lo=None, hi=None):
        n = self.path.fresh(name)
        z = z3.Int(n)
        self._bounds(z, lo, hi, False, False)
        self.drawn.append((n, 'int', z))
        return SNum(z)

    def bool(self, name):
        n = self.path.fresh(name)
        z = z3.Bool(n)
        self.drawn.append((n, 'bool', z))
        return SBool(z)

    def pick(self, name, options):
        n = self.path.fresh(name)
        if len(options) == 1:
            self.drawn.append((n, 'pick', 0))
            return options[0]
        z = z3.Int(n)
        self.path.add(z3.And(z >= 0, z < len(options)))
        k = engine.concretise(SNum(z))
        self.drawn.append((n, 'pick', k))
        return options[k]

    def fn(self, name, arity=1, ret='real', lo=None, hi=None, lo_open=False):
        n = self.path.fresh(name)
        apps = []
        self.drawn.append((n, 'fn', apps))

        def f(*args):
            if len(args) != arity:
                raise TypeError('arity')
            for a in args:
                if isinstance(a, float) and not math.isfinite(a):
                    raise Unsupported('uninterpreted function at infinity')
                if not sym.is_num(a):
                    raise TypeError('bad operand type')
            r = sym.apply_uf(n, args, 'real' if ret == 'real' else ret)
            zs = [sym._real(sym._coerce(a)[1]) for a in args]
            if ret == 'real':
                t = sym.uf(n, arity, 'real')(*zs)
                if lo is not None:
                    self.path.axiom(t > sym._real(sym._coerce(lo)[1]) if lo_open
                                    else t >= sym._real(sym._coerce(lo)[1]))
                if hi is not None:
                    self.path.axiom(t <= sym._real(sym._coerce(hi)[1]))
            else:
                t = sym.uf(n, arity, ret)(*zs)
            apps.append((zs, t))
            return r
        return f

    # ---- series of symbolic length, and loop invariants
    def series(self, name, uniform=False, lo=0, none_y=False):
        from . import seq
        n = self.path.fresh(name)
        b = seq.Base(self.path, n, uniform, none_y)
        self.path.add(b.n >= lo)
        self.path.abstract = self.path.linear_hints = True
        for m in ('points',):
            mod = getattr(self.cp, m)
            if mod not in self.unshim:
                seq.shim(self, mod)
        s = seq.SymSeq(seq.Node(b.n, b.at))
        if lo > 0:
            b.use(z3.IntVal(0))
        b.use(b.n - 1)
        self.drawn.append((n, 'series', b))
        return s

    def cut(self, dotted, *invs):
        from . import seq
        seq.install(self, dotted, dict(enumerate(invs)))

    def forall(self, s, claim):
        from . import seq
        return seq.Forall(seq.lift(s), claim)

    def known(self, s, claim):
        """Precondition: claim(j) for every index j of the series."""
        s.node.schema(claim)

    def len(self, s):
        from . import seq
        return seq.dv_len(s)

    def index(self, name, s, lo=0, hi=0):
        """An arbitrary index of s (lo <= index < len - hi)."""
        n = self.len(s)
        k = self.int(name, lo=lo)
        self.assume(k < n - hi)
        return k

    def split(self, s, left, right):
        """Ghost state: the unique a, b such that exactly the entries before a are left, exactly those
        from b on are right.  They exist whenever left is closed downwards, right upwards, and the two
        are disjoint (left and right are predicates of x; the contract must see to it)."""
        from . import seq
        n = s.n
        a, b = (z3.Int(self.path.fresh('split.' + c)) for c in 'ab')
        self.path.add(z3.And(0 <= a, a <= b, b <= n))
        for i in (a - 1, a, b - 1, b):
            s.at(i)

        def inst(j):
            x = s.at(j.z if isinstance(j, SNum) else z3.IntVal(j))[0]
            l, r = bz(left(x)), bz(right(x))
            j = seq.zi(j)
            return mkb(z3.Implies(z3.And(j >= 0, j < n), z3.And((j < a) == l, (j >= b) == r)))
        s.node.schema(inst)
        return mk(a), mk(b)

    def stored(self, s, x):
        """x is the x of some entry (a witness is sought among the indices that were looked up last)."""
        from . import seq
        s = seq.lift(s)
        z = []
        for i in self.path.names.get('gets of series', ()):
            z.append(z3.And(i >= 0, i < s.n, bz(self.same(s.at(i)[0], x))))
        return mkb(z3.Or(*z))

    def same_points(self, label, got, want):
        from . import seq
        got, want = seq.lift(got), seq.lift(want)
        if got is None:
            self.check(label, False)
            return
        self.check(label + ': as many points', got.length == want.length)
        if self.decide(want.length > 0):
            j = self.index('at', want)
            p, q = got.at(j.z), want.at(j.z)
            self.check(label + ': the same points', self.same(tuple(p), tuple(q)))

    def assume(self, c):
        z = z3.simplify(bz(c))
        if z3.is_true(z):
            return
        if z3.is_false(z):
            raise PathEnd()
        self.path.add(z)
        if self.path.pos >= len(self.path.prefix) and self.path.sat(z3.BoolVal(True)) == z3.unsat:
            raise PathEnd()

    def check(self, label, claim, detail=None):
        self.sink.obligation(self, label, bz(claim), detail)

    def lemma(self, label, claim):
        """An intermediate assertion: used if it is proved, of no consequence if it is not
        (it speaks about internals, which may change without any property failing)."""
        return self.sink.lemma(self, label, bz(claim))

    def unsupported(self, why):
        raise Unsupported(why)

    def require(self, label, claim):
        """An assertion about internals on which the rest of the proof depends: no violation if it
        cannot be proved, but then nothing is claimed."""
        if not self.lemma(label, claim):
            raise Unsupported('not proved: ' + label)

    def derive(self, label, claim, *hyps, lemma=False):
        """A cut: prove the premises, then the claim from the premises alone, with function
        applications and quotients generalised to variables (proving more than needed)."""
        ok = [self.lemma('%s: premise %d' % (label, i + 1), h) for i, h in enumerate(hyps)]
        self.sink.derivation(self, label, bz(claim), [bz(h) for h, o in zip(hyps, ok) if o], lemma)

    def zero_products(self, label, s, *factors):
        """From s = 0 (proved here): factor * s = 0, returned as premises."""
        if not self.lemma(label, self.same(s, 0)):
            return []
        out = [self.same(f * s, 0) for f in factors]
        for c in out:
            self._fact(c)
        return out

    def by(self, label, prop, *args):
        """A lemma with parameters: prop is proved for arbitrary reals, then used for args."""
        fresh = [SNum(z3.Real(self.path.fresh('arg'))) for _ in args]
        z = z3.simplify(bz(prop(*fresh)))
        r, how, _ = engine.prove([], z, self.sink.stats)
        if r != 'proved':
            self.sink.unproved_lemmas.add(label)
            return
        self.sink._proved(self, 'lemma: ' + label, z3.BoolVal(True), how)
        self._fact(prop(*args))

    def note(self, label):
        self.sink.reach.add(label)

    def end(self):
        raise PathEnd()

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except RecursionError as e:
            return Outcome(exc=e)
        except Exception as e:
            if isinstance(e, z3.Z3Exception):
                raise
            return Outcome(exc=e)

    def oracle(self, fn, *a, **k):
        """call() of a specification; where its arithmetic leaves the engine's reach
        (powers of negative or infinite numbers) the path is excluded, and counted."""
        try:
            return self.call(fn, *a, **k)
        except Unsupported as e:
            self.sink.excluded[str(e)] = self.sink.excluded.get(str(e), 0) + 1
            raise PathEnd()

    def same(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.and_(*[self.same(p, q) for p, q in zip(a, b)])
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return True
        r = (a == b)
        return r if isinstance(r, (bool, SBool)) else bool(r)

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def and_(self, *cs):
        return mkb(z3.And(*[bz(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return mkb(z3.Or(*[bz(c) for c in cs])) if cs else False

    def not_(self, c):
        return mkb(z3.Not(bz(c)))

    def ite(self, c, a, b):
        z = z3.simplify(bz(c))
        if z3.is_true(z):
            return a
        if z3.is_false(z):
            return b
        if sym.is_num(a) and sym.is_num(b):
            ca, cb = sym._coerce(a), sym._coerce(b)
            if ca[0] == 's' and cb[0] == 's':
                p, q = sym._match(ca[1], cb[1])
                return mk(z3.If(z, p, q))
        return a if engine.branch(z) else b

    def decide(self, c):
        return bool(c)

    def inside(self, d, x):
        return BaseE.inside(self, d, x)

    def is_empty(self, d):
        return d.start is None

    def floor(self, x):
        return math.floor(x)

    def sin(self, x): return sym.apply_uf('sin', [x])
    def cos(self, x): return sym.apply_uf('cos', [x])
    def trig_sum(self, a, b, c):
        """Addition theorems for c = a + b (which is an obligation of its own)."""
        if not self.lemma('the angle is the sum', self.same(c, a + b)):
            return
        sa, ca, sb, cb = self.sin(a), self.cos(a), self.sin(b), self.cos(b)
        self._fact(self.same(self.sin(c), sa * cb + ca * sb))
        self._fact(self.same(self.cos(c), ca * cb - sa * sb))

    def trig_unit(self, a):
        s, c = self.sin(a), self.cos(a)
        self._fact(self.same(s * s + c * c, 1))

    def _fact(self, c):
        z = bz(c)
        if not z3.is_true(z):
            self.path.axiom(z)

    def hypot(self, a, b): return shims.math.hypot(a, b)
    def log(self, x): return shims._ln(x)
    def pow(self, a, b): return sym.power(a, b)
    pi = math.pi

    def _real_terms(self):
        out = []
        for _, k, z in self.drawn:
            if k == 'real':
                out.append(z)
            elif k == 'series':
                out += z.terms()
        return out

    # ---- models --------------------------------------------------------------
    def concretise_draws(self, pc, neg):
        """A counter-model's draws, as small dyadic numbers where possible."""
        reals = self._real_terms()
        best = None
        for denom, bound in ((1, 32), (4, 64), (64, 4096), (1024, 1 << 20), (None, None)):
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*pc)
            s.add(neg)
            for _, k, b in self.drawn:
                if k == 'series':
                    s.add(b.n <= 12)
            if denom:
                for i, z in enumerate(reals):
                    q = z3.Int('nice!%d' % i)
                    s.add(z * denom == z3.ToReal(q), q <= bound * denom, q >= -bound * denom)
            if s.check() == z3.sat:
                best = s.model()
                break
        if best is None:
            return None
        return self.draws_of(best)

    def nice_draws(self, pc):
        reals = self._real_terms()
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*pc)
        for _, k, b in self.drawn:
            if k == 'series':
                s.add(b.n <= 12)
        for i, z in enumerate(reals):
            q = z3.Int('nice!%d' % i)
            s.add(z * 8 == z3.ToReal(q), q <= 512, q >= -512)
        if s.check() != z3.sat:
            return None
        return self.draws_of(s.model())

    def draws_of(self, m):
        def num(z):
            v = m.eval(z, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if z3.is_rational_value(v):
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                return float(f)
            return 0.0
        out = {}
        for n, k, p in self.drawn:
            if k == 'series':
                out[n] = p.concrete(num, lambda z: z3.is_true(m.eval(z, model_completion=True)), int(num(p.n)))
                if out[n] is None:
                    return None
            elif k == 'real':
                out[n] = num(p)
            elif k == 'int':
                out[n] = int(num(p))
            elif k == 'bool':
                out[n] = z3.is_true(m.eval(p, model_completion=True))
            elif k == 'pick':
                out[n] = p
            elif k == 'fn':
                rows = []
                for zs, t in p:
                    if t.sort() == z3.BoolSort():
                        v = z3.is_true(m.eval(t, model_completion=True))
                    else:
                        v = num(t)
                    rows.append([[float(num(z)) for z in zs], v])
                out[n] = rows
        return out


def generalise(z):
    found, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() and (t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DIV)):
            found.append(t)
            return
        for c in t.children():
            walk(c)
    walk(z)
    return z3.substitute(z, *[(t, z3.Const('gen!%d' % i, t.sort())) for i, t in enumerate(found)])


HUGE = 1e7


def scale(d):
    if isinstance(d, dict):
        return max([scale(v) for v in d.values()], default=0)
    if isinstance(d, (list, tuple)):
        return max([scale(v) for v in d], default=0)
    if isinstance(d, (int, float)) and not isinstance(d, bool):
        return abs(d)
    return 0


class Sink:
    def __init__(self, contract, stats):
        self.contract = contract
        self.stats = stats
        self.total = 0
        self.discharged = 0
        self.by_backend = {}
        self.labels = {}            # label -> [total, discharged]
        self.failures = []          # dicts
        self.reach = set()
        self.unproved_lemmas = set()
        self.path_obligations = 0
        self.excluded = {}          # reason -> paths on which the specification is out of reach

    def _before(self, E, label, z):
        """Was this proved on an earlier path that shares all decisions so far?  It is the same obligation."""
        p = E.path
        p.nproved += 1
        key = ('proved', p.nproved, label, tuple(p.trace))
        if p.pos < len(p.prefix) and p.cache.get(key):
            p.add(z)
            return key, True
        return key, False

    def lemma(self, E, label, z):
        z = z3.simplify(z)
        key, done = self._before(E, label, z)
        if done:
            return True
        r, how, _ = ('proved', 'symbolic evaluation', None) if z3.is_true(z) or any(z.eq(c) for c in E.path.pc) else \
            engine.prove(E.path.pc, z, self.stats, timeout=8000)
        if r == 'proved':
            self._proved(E, 'lemma: ' + label, z, how)
            E.path.cache[key] = True
            return True
        self.unproved_lemmas.add(label)
        return False

    def derivation(self, E, label, z, hyps, lemma):
        goal = z3.simplify(z3.Implies(z3.And(*hyps), z))
        r, how, _ = engine.prove([], generalise(goal), self.stats)
        if r == 'proved':
            self._proved(E, label, z, how)
        elif lemma:
            self.lemma(E, label, z)
        else:
            self.obligation(E, label, z)

    def _proved(self, E, label, z, how):
        lab = self.labels.setdefault(label, [0, 0])
        self.total += 1
        self.path_obligations += 1
        self.discharged += 1
        lab[0] += 1
        lab[1] += 1
        self.by_backend[how] = self.by_backend.get(how, 0) + 1
        E.path.add(z)

    def obligation(self, E, label, z, detail=None):
        p = E.path
        z = z3.simplify(z)
        if z3.is_true(z):
            key = None
        else:
            key, done = self._before(E, label, z)
            if done:
                return
        self.total += 1
        self.path_obligations += 1
        lab = self.labels.setdefault(label, [0, 0])
        lab[0] += 1
        if z3.is_true(z):
            self.discharged += 1
            lab[1] += 1
            self.by_backend['symbolic evaluation'] = self.by_backend.get('symbolic evaluation', 0) + 1
            return
        r, how, model = engine.prove(p.pc, z, self.stats)
        if r == 'proved':
            self.discharged += 1
            lab[1] += 1
            self.by_backend[how] = self.by_backend.get(how, 0) + 1
            p.add(z)
            p.cache[key] = True
            return
        f = {'label': label, 'status': r, 'backend': how, 'detail': detail,
             'abstract': p.abstract}
        nf = sum(1 for g in self.failures if g['label'] == label)
        if nf < 3:
            if r == 'refuted':
                d = E.concretise_draws(p.pc, z3.Not(z))
                d = d if d is not None else E.draws_of(model)
                if scale(d) > HUGE:
                    # floats are no reals any more at that size: a failure there may be rounding
                    f['abstract'] = True
                else:
                    f['draws'] = d
            f['claim'] = str(z)[:1500]
            f['path'] = [str(c)[:300] for c in p.pc][:60]
            self.failures.append(f)
        else:
            self.failures.append({'label': label, 'status': r, 'backend': how, 'abstract': p.abstract})
        # continue under the claim, so that one failure does not cascade
        if p.sat(z) == z3.unsat:
            raise PathEnd()
        p.add(z)


class Result(dict):
    pass


def explore(contract, cp, Interval, param=None, budget_s=200, max_paths=20000, hooks=None, keep_models=0):
    """Run every path of a contract.  Returns a plain dict."""
    stats = engine.Stats()
    sink = Sink(contract, stats)
    work = [[]]
    paths = 0
    useful = 0
    status = 'complete'
    reason = ''
    t0 = time.time()
    deadline = t0 + budget_s
    unsupported = []
    models = []
    cache = {}
    while work:
        if time.time() > deadline or paths >= max_paths:
            status, reason = 'budget', 'stopped after %d paths, %.0f s' % (paths, time.time() - t0)
            break
        prefix = work.pop()
        p = engine.Path(prefix, stats)
        p.deadline = deadline
        p.cache = cache
        engine.CTX = p
        E = SymE(cp, Interval, p, sink, param)
        sink.path_obligations = 0
        if hooks and hooks.get('before'):
            hooks['before'](E)
        try:
            contract.fn(E)
        except PathEnd:
            pass
        except Budget:
            status, reason = 'budget', 'stopped after %d paths' % paths
            break
        except Unsupported as e:
            unsupported.append(str(e))
            status, reason = 'unsupported', str(e)
            if len(unsupported) > 3:
                break
        except z3.Z3Exception as e:
            unsupported.append('z3: %s' % e)
            status, reason = 'unsupported', 'z3: %s' % e
            if len(unsupported) > 3:
                break
        finally:
            if E.patches or E.unshim:
                from . import seq
                seq.restore(E)
            engine.CTX = None
            if hooks and hooks.get('after'):
                hooks['after'](E)
        paths += 1
        if sink.path_obligations:
            useful += 1
            # a concrete run of the real code for a sample of the explored paths
            if len(models) < keep_models and (paths < 4 or paths % 7 == 0):
                engine.CTX = p
                d = E.nice_draws(p.pc)
                engine.CTX = None
                if d is not None:
                    models.append(d)
        work.extend(p.alts)
    return {
        'contract': contract.name, 'param': param, 'status': status, 'reason': reason,
        'paths': paths, 'useful_paths': useful, 'obligations': sink.total,
        'discharged': sink.discharged, 'backends': sink.by_backend,
        'labels': sink.labels, 'failures': sink.failures[:40],
        'reach': sorted(sink.reach), 'unproved_lemmas': sorted(sink.unproved_lemmas),
        'queries': stats.queries, 'solver_s': round(stats.solver_s, 3),
        'unknown_branches': stats.unknown_branches, 'wall_s': round(time.time() - t0, 2),
        'unsupported': unsupported, 'models': models, 'excluded': sink.excluded,
    }
