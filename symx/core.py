"""Symbolic scalars, path exploration and the proof obligations.

A `Ctx` owns one z3 solver and one path at a time.  Python code under test runs
natively; its scalars are instances of

  R   exact real: numerator (Fraction or z3 Real term) over a product of
      z3 polynomial factors
  Cx  complex number, a pair of R
  I   64-bit two's complement machine integer (z3 BitVec)
  B   boolean (z3 Bool); truth-testing forks the path

Forking is by re-execution: `explore` replays the function with a decision
prefix until every feasible branch has been taken.
"""
import math
import numbers
import time
from fractions import Fraction

import z3


class Control(BaseException):
    """Raised to steer or stop a path; must never be swallowed silently."""


class PathAbort(Control):
    pass


class Unsupported(Control):
    pass


class Budget(Control):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.aborted = 0
        self.forks = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0

    def asdict(self):
        return dict(self.__dict__)


_CTX = None


def ctx():
    if _CTX is None:
        raise RuntimeError('no symbolic context')
    return _CTX


def active():
    return _CTX


_NICE = {}


def frac(x):
    """Real number a float literal stands for (floats are read as reals)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise ValueError(x)
    r = _NICE.get(x)
    if r is None:
        r = Fraction(repr(x))
        if r.denominator > 10 ** 9:
            q = r.limit_denominator(5000)
            if float(q) == x:
                r = q
        _NICE[x] = r
    return r


def _rv(q):
    return z3.RealVal(str(q.numerator) + '/' + str(q.denominator)) if q.denominator != 1 \
        else z3.RealVal(str(q.numerator))


def term(n):
    return _rv(n) if isinstance(n, Fraction) else n


def is_num(x):
    return isinstance(x, (int, float, Fraction, numbers.Real)) and not isinstance(x, (R, I, B))


def simp(t):
    return z3.simplify(t, som=True, sort_sums=True, flat=True, mul_to_power=False,
                       blast_distinct=False)


class Ctx:
    def __init__(self, timeout_ms=20000, max_paths=20000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.factors = {}          # id -> z3 polynomial (kept alive)
        self.div_policy = 'assume'  # nonzero denominators: assume | prove
        self.assumed_nonzero = set()
        self.abstract_mul = False
        self.abstract_recip = False
        self.normalize = False      # keep quotients reduced by monomials
        self.monomials = {}
        self.bases = {}
        self.funcs = {}
        self.reset([])

    # -- path state ---------------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.pc = []
        self.fresh_n = 0
        self.inputs = {}
        self.failed_control = None
        self.obligations = 0
        self.sqrt_cache = {}
        self.sqrt_of = {}
        self.fork_min = False       # minima fork instead of becoming if-then-else
        self.rsq = {}              # x^2 -> x
        self.crecips = {}          # 1/z -> z, kept alive with the key
        self.cpows = {}            # complex values known to be powers
        self.uf_cache = {}
        self.notes = []
        self.branch_cache = {}
        self.assumed_nonzero_path = set()
        self.solver.reset()

    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            self._fail(Budget('time budget exhausted'))
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_time += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def retry(self, q):
        """Second opinion with other solver configurations."""
        t = time.time()
        try:
            for tac in ('qfnra-nlsat', 'smt'):
                s = z3.Tactic(tac).solver()
                s.set('timeout', self.timeout_ms)
                for c in self.pc:
                    s.add(c)
                s.add(q)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                self.stats.queries += 1
                if r != z3.unknown:
                    return r
            return z3.unknown
        finally:
            self.stats.solver_time += time.time() - t

    def _fail(self, exc):
        if self.failed_control is None:
            self.failed_control = exc
        raise exc

    def abort(self, why=''):
        self._fail(PathAbort(why))

    def unsupported(self, why):
        self._fail(Unsupported(why))

    def branch(self, cond):
        """Decide a symbolic condition on this path (may fork)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        hit = self.branch_cache.get(key)
        if hit is not None:
            return hit[1]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(val)
            self.add(cond if val else z3.Not(cond))
            self.branch_cache[key] = (cond, val)
            return val
        st = self.check(cond)
        sf = self.check(z3.Not(cond))
        if st == z3.unsat and sf == z3.unsat:
            self.abort('infeasible')
        if st == z3.unsat:
            val = False
        elif sf == z3.unsat:
            val = True
        else:
            val = True
            self.stats.forks += 1
            self.pending.append(self.trace + [False])
        # both forced and free decisions are recorded so that replays of the
        # prefix stay aligned
        self.pos += 1
        self.trace.append(val)
        self.prefix = self.prefix + [val]
        self.add(cond if val else z3.Not(cond))
        self.branch_cache[key] = (cond, val)
        return val

    def choose(self, t):
        """Concretise a bit-vector term, forking over its feasible values."""
        key = ('v', t.get_id())
        hit = self.branch_cache.get(key)
        if hit is not None:
            return hit[1]
        for _ in range(4096):
            if self.pos < len(self.prefix):
                kind, v = self.prefix[self.pos]
                self.pos += 1
                self.trace.append((kind, v))
            else:
                if self.check() != z3.sat:
                    self.abort('infeasible')
                v = self.solver.model().eval(t, model_completion=True).as_signed_long()
                kind = 'eq'
                r = self.check(t != v)
                if r != z3.unsat:
                    self.stats.forks += 1
                    self.pending.append(self.trace + [('ne', v)])
                self.pos += 1
                self.trace.append((kind, v))
                self.prefix = self.prefix + [(kind, v)]
            if kind == 'eq':
                self.add(t == v)
                self.branch_cache[key] = (t, v)
                return v
            self.add(t != v)
        self.unsupported('concretising an integer with too many values')

    def assume(self, cond):
        if isinstance(cond, B):
            cond = cond.t
        if isinstance(cond, bool):
            if not cond:
                self.abort('assumption')
            return
        self.add(cond)

    # -- named inputs -------------------------------------------------------
    def real(self, name):
        t = z3.Real(name)
        self.inputs[name] = t
        return R(t)

    def bv(self, name, lo=None, hi=None):
        t = z3.BitVec(name, 64)
        self.inputs[name] = t
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        return I(t)

    def boolean(self, name):
        t = z3.Bool(name)
        self.inputs[name] = t
        return B(t)

    def func(self, name, *sorts):
        key = (name, len(sorts))
        if key not in self.funcs:
            self.funcs[key] = z3.Function(name, *sorts)
        return self.funcs[key]

    # -- rational factors ---------------------------------------------------
    def factor(self, t):
        """Canonical (coefficient, key) of a polynomial denominator factor."""
        t = simp(t)
        k = t.get_id()
        if k in self.factors:
            return 1, k
        neg = simp(-t)
        if neg.get_id() in self.factors:
            return -1, neg.get_id()
        self.factors[k] = t
        return 1, k


def explore(cx, fn, on_path=None):
    """Run fn on every feasible path.  fn() is called with the context active."""
    global _CTX
    work = [[]]
    while work:
        prefix = work.pop()
        if cx.stats.paths >= cx.max_paths:
            raise Budget('more than %d paths' % cx.max_paths)
        cx.reset(prefix)
        old, _CTX = _CTX, cx
        try:
            err = None
            try:
                res = fn()
            except PathAbort:
                res, err = None, 'abort'
            if cx.failed_control is not None:
                if isinstance(cx.failed_control, PathAbort):
                    err = 'abort'
                else:
                    raise cx.failed_control
            work.extend(cx.pending)
            if err == 'abort':
                cx.stats.aborted += 1
            else:
                cx.stats.paths += 1
                if on_path:
                    on_path(res)
        finally:
            _CTX = old


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class B:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        o = as_b(o)
        return NotImplemented if o is None else B(z3.And(self.t, o.t))
    __rand__ = __and__

    def __or__(self, o):
        o = as_b(o)
        return NotImplemented if o is None else B(z3.Or(self.t, o.t))
    __ror__ = __or__

    def __xor__(self, o):
        o = as_b(o)
        return NotImplemented if o is None else B(z3.Xor(self.t, o.t))
    __rxor__ = __xor__

    def __invert__(self):
        return B(z3.Not(self.t))

    def __eq__(self, o):
        o = as_b(o)
        return NotImplemented if o is None else B(self.t == o.t)

    def __ne__(self, o):
        o = as_b(o)
        return NotImplemented if o is None else B(self.t != o.t)

    __hash__ = None

    def _i(self):
        return I(z3.If(self.t, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))

    def _r(self):
        return R(z3.If(self.t, z3.RealVal(1), z3.RealVal(0)))

    def __mul__(self, o):
        if isinstance(o, (R, Cx)) or isinstance(o, float):
            return self._r() * o
        return self._i() * o
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, (R, Cx)) or isinstance(o, float):
            return self._r() + o
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return 'B(%s)' % self.t


def as_b(o):
    if isinstance(o, B):
        return o
    if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
        return B(z3.BoolVal(bool(o)))
    if isinstance(o, I):
        return B(o.t != 0)
    if isinstance(o, int):
        return B(z3.BoolVal(bool(o)))
    return None


def bterm(o):
    if isinstance(o, B):
        return o.t
    return z3.BoolVal(bool(o))


# --------------------------------------------------------------------------
# reals
# --------------------------------------------------------------------------
def _lcm(d1, d2):
    out = dict(d1)
    for k, p in d2:
        if out.get(k, 0) < p:
            out[k] = p
    return tuple(sorted(out.items()))


def _missing(full, d):
    d = dict(d)
    out = []
    for k, p in full:
        q = p - d.get(k, 0)
        if q:
            out.append((k, q))
    return out


def _prod(fs):
    c = ctx()
    t = None
    for k, p in fs:
        for _ in range(p):
            f = c.factors[k]
            t = f if t is None else t * f
    return t


def _scale(n, fs):
    if not fs:
        return n
    if isinstance(n, Fraction) and n == 0:
        return n
    p = _prod(fs)
    if isinstance(n, Fraction):
        return p if n == 1 else _rv(n) * p
    return n * p


NAN = float('nan')


class R:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # conversions -----------------------------------------------------------
    @staticmethod
    def const(x):
        return R(frac(x))

    @property
    def is_const(self):
        return isinstance(self.n, Fraction) and not self.d

    @property
    def t(self):
        """z3 term for the value."""
        if not self.d:
            return term(self.n)
        return term(self.n) / _prod(self.d)

    def nt(self):
        return term(self.n)

    # arithmetic ------------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return o
        if isinstance(o, complex):
            return as_c(self) + o
        o = as_r(o)
        if o is None:
            return NotImplemented
        a, b = self, o
        if isinstance(a.n, Fraction) and a.n == 0:
            return b
        if isinstance(b.n, Fraction) and b.n == 0:
            return a
        if a.d == b.d:
            n, d = _addn(a.n, b.n), a.d
        else:
            d = _lcm(a.d, b.d)
            n = _addn(_scale(a.n, _missing(d, a.d)), _scale(b.n, _missing(d, b.d)))
        if isinstance(n, Fraction) and n == 0:
            d = ()
        elif not isinstance(n, Fraction) and ctx().normalize:
            return _reduce(n, d)
        return R(n, d)
    __radd__ = __add__

    def __neg__(self):
        return R(-self.n, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return -o
        if isinstance(o, complex):
            return as_c(self) - o
        o = as_r(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return o
        if isinstance(o, complex):
            return o - as_c(self)
        o = as_r(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        if isinstance(o, complex):
            return as_c(self) * o
        if isinstance(o, float) and not math.isfinite(o):
            return NAN
        o = as_r(o)
        if o is None:
            return NotImplemented
        if not self.d and not o.d and _CTX is not None and _CTX.sqrt_of and z3.is_expr(self.n) \
                and z3.is_expr(o.n) and self.n.get_id() == o.n.get_id() \
                and self.n.get_id() in _CTX.sqrt_of:
            return _CTX.sqrt_of[self.n.get_id()]
        n = _muln(self.n, o.n)
        if isinstance(n, Fraction) and n == 0:
            return R(n)
        d = dict(self.d)
        for k, p in o.d:
            d[k] = d.get(k, 0) + p
        if not isinstance(n, Fraction) and ctx().normalize:
            r = _reduce(n, tuple(sorted(d.items())))
            c = _CTX
            if o is self and c.abstract_recip and not self.d and not r.d and not isinstance(r.n, Fraction):
                sg, k = c.factor(r.n)
                c.rsq[k] = (self, sg)
            return r
        if d:
            # cancel when one operand is exactly a denominator factor
            for num, other in ((self.n, o), (o.n, self)):
                if isinstance(num, Fraction) or not other.d:
                    continue
                key = num.get_id()
                if key not in dict(other.d) and len(other.d) <= 8:
                    s = simp(num)
                    key = s.get_id()
                if d.get(key, 0) > 0:
                    d[key] -= 1
                    if d[key] == 0:
                        del d[key]
                    n = o.n if num is self.n else self.n
                    break
        return R(n, tuple(sorted(d.items())))
    __rmul__ = __mul__

    def recip(self):
        c = ctx()
        if isinstance(self.n, Fraction):
            if self.n == 0:
                if c.div_policy == 'ieee':
                    return NAN
                c.notes.append('division by zero')
                raise ZeroDivisionError('symbolic execution: division by exact zero')
            return R(_scale(1 / self.n, list(self.d)))
        c2 = simp(self.n)
        if z3.is_rational_value(c2):
            q = c2.as_fraction()
            return R(Fraction(q.numerator, q.denominator), self.d).recip()
        if c.normalize:
            ms = _monomials(c2)
            if ms is not None and len(ms) == 1:
                (q, f), = ms
                d = []
                for a, p in f.values():
                    sg, k = c.factor(a)
                    q = q * sg ** p
                    self._nonzero(k)
                    d.append((k, p))
                n = _scale(1 / q, list(self.d))
                return R(n, tuple(sorted(d))) if isinstance(n, Fraction) else _reduce(n, tuple(sorted(d)))
        sign, k = c.factor(self.n)
        if c.abstract_recip and k in c.rsq:         # 1/x^2 = (1/x)^2
            b, sg = c.rsq[k]
            b = b.recip()
            return b * b * R(_scale(Fraction(sign * sg), list(self.d)))
        self._nonzero(k)
        if c.abstract_recip:
            return R(Fraction(sign)) * uf('recip', R(c.factors[k])) * R(_scale(Fraction(1), list(self.d)))
        return R(_scale(Fraction(sign), list(self.d)), ((k, 1),))

    def _nonzero(self, k):
        c = ctx()
        if k in c.assumed_nonzero_path:
            return
        c.assumed_nonzero_path.add(k)
        f = c.factors[k]
        if c.div_policy in ('assume', 'ieee'):
            c.assumed_nonzero.add(str(f)[:160])
            c.add(f != 0)
        elif c.div_policy == 'prove':
            r = c.check(f == 0)
            if r == z3.sat:
                raise ZeroDivisionError('denominator can vanish: %s' % str(f)[:200])
            if r == z3.unknown:
                c.unsupported('cannot decide denominator %s' % str(f)[:200])
            c.add(f != 0)
        elif c.div_policy == 'fork':
            if c.branch(f == 0):
                raise ZeroDivisionError('denominator vanishes: %s' % str(f)[:200])

    def __truediv__(self, o):
        if isinstance(o, complex):
            return as_c(self) / o
        if isinstance(o, float) and not math.isfinite(o):
            return NAN if math.isnan(o) else R(Fraction(0))
        o = as_r(o)
        return NotImplemented if o is None else self * o.recip()

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return o / as_c(self)
        o = as_r(o)
        return NotImplemented if o is None else o * self.recip()

    def __pow__(self, k):
        if isinstance(k, R) and k.is_const:
            k = k.n
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(k, numbers.Integral):
            k = int(k)
            if k < 0:
                return (self ** (-k)).recip()
            out = self if k else R(Fraction(1))
            for _ in range(k - 1):
                out = out * self
            return out
        if k in (0.5, Fraction(1, 2)):
            return self.sqrt()
        if k in (-0.5, Fraction(-1, 2)):
            return self.sqrt().recip()
        ctx().unsupported('power %r' % (k,))

    def __rpow__(self, b):
        if self.is_const:
            b = R.const(b)
            return b ** self
        c = ctx()
        return uf('pow', R.const(b) if not isinstance(b, R) else b, self)

    def __abs__(self):
        if self.is_const:
            return R(abs(self.n))
        if ctx().fork_min:
            return self if bool(self >= 0) else -self
        if self.d:
            # |n/d| = |n| / |d|: keep as ite on the sign of n*d
            p = _prod(self.d)
            return ite(B(self.nt() * p >= 0), self, -self)
        return R(z3.If(self.n >= 0, self.n, -self.n))

    # comparisons -----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, float) and math.isinf(o):
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0,
                    'eq': False, 'ne': True}[op]
        if isinstance(o, float) and math.isnan(o):
            return op == 'ne'
        o = as_r(o)
        if o is None:
            return NotImplemented
        diff = self - o
        if diff.is_const:
            n = diff.n
            return {'lt': n < 0, 'le': n <= 0, 'gt': n > 0, 'ge': n >= 0,
                    'eq': n == 0, 'ne': n != 0}[op]
        n = term(diff.n)
        if op in ('eq', 'ne'):
            return B(n == 0) if op == 'eq' else B(n != 0)
        if diff.d:
            odd = [(k, 1) for k, p in diff.d if p % 2]
            if odd:
                n = n * _prod(odd)
        return B({'lt': n < 0, 'le': n <= 0, 'gt': n > 0, 'ge': n >= 0}[op])

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return self._cmp(o, 'eq')
    def __ne__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return self._cmp(o, 'ne')
    def __hash__(self): return 0      # as a key: found by comparison

    def __bool__(self):
        return bool(self != 0)

    # numpy unary protocol --------------------------------------------------
    def sqrt(self):
        c = ctx()
        if self.is_const:
            if self.n < 0:
                raise ValueError('sqrt of negative')
            p, q = math.isqrt(self.n.numerator), math.isqrt(self.n.denominator)
            if p * p == self.n.numerator and q * q == self.n.denominator:
                return R(Fraction(p, q))
        s = simp(term(self.n))
        if c.normalize:
            r = self._square(s)
            if r is not None:
                return r
        key = (s.get_id(), self.d)
        if key not in c.sqrt_cache:
            v = z3.Real(c.fresh('sqrt'))
            x = R(s, self.d)
            c.add(v >= 0)
            if c.abstract_mul:
                if not self.d:
                    c.add(_muln(v, v) == s)
            elif self.d:
                c.add(v * v * _prod(self.d) == s)
            else:
                c.add(v * v == s)
            c.sqrt_cache[key] = (v, s)
            c.sqrt_of[v.get_id()] = R(s, self.d)
        return R(c.sqrt_cache[key][0])

    def _square(self, s):
        """|x| * sqrt(q) of q*x**2, the sign resolved by the solver."""
        c = ctx()
        ms = _monomials(s)
        if ms is None or len(ms) != 1 or any(p % 2 for _, p in self.d):
            return None
        (q, f), = ms
        if q <= 0 or any(p % 2 for _, p in f.values()):
            return None
        r = R(q).sqrt() if q != 1 else R(q)
        for a, p in f.values():
            r = r * _magnitude(a) ** (p // 2)
        for k, p in self.d:
            r = r / _magnitude(c.factors[k]) ** (p // 2)
        return r

    def exp(self): return uf('exp', self)
    def log(self): return uf('log', self)

    def conjugate(self): return self
    conj = conjugate

    @property
    def real(self): return self
    @property
    def imag(self): return R(Fraction(0))
    @property
    def size(self): return 1
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def T(self): return self

    def copy(self): return self
    def item(self): return self
    def sum(self, *a, **k): return self

    def astype(self, dt):
        return self

    def __round__(self, nd=None):
        ctx().unsupported('round of a symbolic real')

    def round(self, nd=None):
        ctx().unsupported('round of a symbolic real')

    def __float__(self):
        if self.is_const:
            return float(self.n)
        v = simp(self.t)
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        ctx().unsupported('float() of a symbolic real')

    def __int__(self):
        if self.is_const:
            return int(self.n)
        ctx().unsupported('int() of a symbolic real')

    def __index__(self):
        if self.is_const and self.n.denominator == 1:
            return int(self.n)
        raise TypeError('real used as index')

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        s = str(self.n) if not self.d else '(%s)/(%s)' % (self.n, _prod(self.d))
        return 'R(%s)' % s[:200]

    def __format__(self, spec):
        return '<sym>'


numbers.Number.register(R)


def _monomials(t, cap=400):
    """[(coefficient, {id: (atom, power)})] of an expanded polynomial."""
    if z3.is_rational_value(t):
        q = t.as_fraction()
        return [(Fraction(q.numerator, q.denominator), {})]
    ts = t.children() if t.decl().kind() == z3.Z3_OP_ADD else [t]
    if len(ts) > cap:
        return None
    out = []
    for m in ts:
        q, f = Fraction(1), {}
        st = [m]
        while st:
            x = st.pop()
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                st.extend(x.children())
            elif k == z3.Z3_OP_UMINUS:
                q = -q
                st.append(x.arg(0))
            elif z3.is_rational_value(x):
                y = x.as_fraction()
                q = q * Fraction(y.numerator, y.denominator)
            elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
                return None
            else:
                a, p = f.get(x.get_id(), (x, 0))
                f[x.get_id()] = (a, p + 1)
        out.append((q, f))
    return out


def _magnitude(t):
    c = ctx()
    if c.check(t < 0) == z3.unsat:
        return R(t)
    if c.check(t > 0) == z3.unsat:
        return R(-t)
    return abs(R(t))


def _reduce(n, d):
    """Cancels the monomial content of the numerator against the denominator."""
    c = ctx()
    n = simp(n)
    if z3.is_rational_value(n):
        q = n.as_fraction()
        q = Fraction(q.numerator, q.denominator)
        return R(q, d if q else ())
    dd = dict(d)
    if not dd:
        return R(n)
    ms = _monomials(n)
    if ms is None:
        return R(n, d)
    cut = {}
    for i in set.intersection(*[set(f) for q, f in ms]):
        p = min(f[i][1] for q, f in ms)
        k = i if dd.get(i) else None
        if k is not None:
            cut[i] = min(p, dd[i])
    if not cut:
        # the numerator itself may be a factor
        for k in list(dd):
            if n.get_id() == k:
                dd[k] -= 1
                return R(Fraction(1), tuple(sorted((a, b) for a, b in dd.items() if b)))
        return R(n, d)
    t = None
    for q, f in ms:
        x = _rv(q)
        for i, (a, p) in f.items():
            for _ in range(p - cut.get(i, 0)):
                x = x * a
        t = x if t is None else t + x
    for i, p in cut.items():
        dd[i] -= p
    t = simp(t)
    dd = tuple(sorted((a, b) for a, b in dd.items() if b))
    if z3.is_rational_value(t):
        q = t.as_fraction()
        return R(Fraction(q.numerator, q.denominator), dd)
    return R(t, dd)


def _addn(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a + b
        return b if a == 0 else _rv(a) + b
    if isinstance(b, Fraction):
        return a if b == 0 else a + _rv(b)
    return a + b


def _muln(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a * b
        if a == 0:
            return a
        if a == 1:
            return b
        if a == -1:
            return -b
        return _rv(a) * b
    if isinstance(b, Fraction):
        return _muln(b, a)
    c = _CTX
    if c is not None and c.abstract_mul:
        return (_omul if c.abstract_mul == 'opaque' else _amul)(c, a, b)
    return a * b


def _amul(c, a, b):
    """Product with the bilinear monomials replaced by free reals (unsat with
    free monomials implies unsat with the real ones); conditionals and sums
    are distributed so that only atoms meet."""
    for x, y in ((a, b), (b, a)):
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), _amul(c, x.arg(1), y), _amul(c, x.arg(2), y))
        if k == z3.Z3_OP_ADD:
            return sum((_amul(c, t, y) for t in x.children()), _rv(Fraction(0)))
        if k == z3.Z3_OP_SUB and x.num_args() == 2:
            return _amul(c, x.arg(0), y) - _amul(c, x.arg(1), y)
        if k == z3.Z3_OP_UMINUS:
            return -_amul(c, x.arg(0), y)
        if k == z3.Z3_OP_MUL and z3.is_rational_value(x.arg(0)) and x.num_args() == 2:
            return x.arg(0) * _amul(c, x.arg(1), y)
        if z3.is_rational_value(x):
            return x * y
    if not (_atom(a) and _atom(b)):
        return a * b
    fs = c.bases.get(a.get_id(), (a,)) + c.bases.get(b.get_id(), (b,))
    fs = tuple(sorted(fs, key=lambda t: t.get_id()))
    key = tuple(t.get_id() for t in fs)
    hit = c.monomials.get(key)
    if hit is None:
        m = z3.Real('mono!%d!%s' % (len(c.monomials), '*'.join(str(t)[:30] for t in fs)[:120]))
        hit = c.monomials[key] = (m, fs)
        c.bases[m.get_id()] = fs
    return hit[0]


def _omul(c, a, b):
    """Product as an uninterpreted function of its (canonical) factors: no
    distribution over sums, only commutativity, associativity and scaling."""
    for x, y in ((a, b), (b, a)):
        if x.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), _omul(c, x.arg(1), y), _omul(c, x.arg(2), y))
    q1, f1 = _ofactors(c, a)
    q2, f2 = _ofactors(c, b)
    fs = tuple(sorted(f1 + f2, key=lambda t: t.get_id()))
    if len(fs) < 2:
        return _rv(q1 * q2) * fs[0] if fs else _rv(q1 * q2)
    app = c.func('uf_mul%d' % len(fs), *([z3.RealSort()] * (len(fs) + 1)))(*fs)
    c.bases[app.get_id()] = fs
    c.monomials[tuple(t.get_id() for t in fs)] = (app, fs)
    q = q1 * q2
    return app if q == 1 else -app if q == -1 else _rv(q) * app


def _ofactors(c, t):
    q = Fraction(1)
    while True:
        k = t.decl().kind()
        if k == z3.Z3_OP_UMINUS:
            q, t = -q, t.arg(0)
        elif k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            q, t = q * t.arg(0).as_fraction(), t.arg(1)
        elif z3.is_rational_value(t):
            return q * t.as_fraction(), ()
        else:
            break
    if t.get_id() in c.bases:
        return q, c.bases[t.get_id()]
    if _atom(t):
        return q, (t,)
    s = simp(t)
    if s.get_id() != t.get_id() and (s.decl().kind() in (z3.Z3_OP_UMINUS, z3.Z3_OP_MUL)
                                     or z3.is_rational_value(s) or _atom(s)):
        q2, f = _ofactors(c, s)
        return q * q2, f
    sg, k = c.factor(s)
    return q * sg, (c.factors[k],)


def _atom(t):
    return t.num_args() == 0 or t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def as_r(o):
    if isinstance(o, R):
        return o
    if isinstance(o, Cx):
        return None
    if isinstance(o, bool):
        return R(Fraction(int(o)))
    if isinstance(o, (int, Fraction)):
        return R(Fraction(o))
    if isinstance(o, I):
        return o.to_r()
    if isinstance(o, B):
        return o._r()
    if isinstance(o, numbers.Real):
        try:
            return R(frac(o))
        except ValueError:
            ctx().unsupported('inf/nan arithmetic')
    if type(o).__name__ in ('bool_', 'bool'):
        return R(Fraction(int(o)))
    if z3.is_expr(o):
        return R(o)
    return None


def uf(name, *args):
    """Uninterpreted real function applied to normalised arguments."""
    c = ctx()
    args = [a if isinstance(a, R) else R.const(a) for a in args]
    ts = []
    for a in args:
        if a.d:
            ts.append(simp(term(a.n)) / simp(_prod(a.d)))
        else:
            ts.append(simp(term(a.n)))
    if name == 'exp' and z3.is_rational_value(ts[0]) and ts[0].as_fraction() == 0:
        return R(Fraction(1))
    if name == 'log' and z3.is_rational_value(ts[0]) and ts[0].as_fraction() == 1:
        return R(Fraction(0))
    f = c.func('uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
    app = f(*ts)
    key = app.get_id()
    if key not in c.uf_cache:
        c.uf_cache[key] = (app, name, ts)
        if name in ('exp', 'log') and z3.is_rational_value(ts[0]):
            q = ts[0].as_fraction()
            if name == 'log' and q > 0 or name == 'exp' and abs(q) < 600:
                v = math.exp(q) if name == 'exp' else math.log(q)
                c.add(app > _rv(frac(v) - frac(abs(v)) / 10**13))
                c.add(app < _rv(frac(v) + frac(abs(v)) / 10**13))
        if name == 'exp':
            c.add(app > 0)
            for k2, (app2, n2, ts2) in list(c.uf_cache.items()):
                if n2 == 'exp' and k2 != key:
                    d = simp(ts[0] - ts2[0])
                    if z3.is_rational_value(d):
                        q = d.as_fraction()
                        c.add(app > app2 if q > 0 else app < app2 if q < 0 else app == app2)
    return R(app)


def ite(c, a, b):
    """Merged conditional on reals."""
    if not isinstance(c, B):
        return a if c else b
    a, b = as_r(a), as_r(b)
    if a.d == b.d:
        return R(z3.If(c.t, term(a.n), term(b.n)), a.d)
    d = _lcm(a.d, b.d)
    return R(z3.If(c.t, term(_scale(a.n, _missing(d, a.d))),
                   term(_scale(b.n, _missing(d, b.d)))), d)


# --------------------------------------------------------------------------
# complex
# --------------------------------------------------------------------------
class Cx:
    __slots__ = ('re', 'im', 'pw')

    def __init__(self, re, im, pw=None):
        self.re = re if isinstance(re, R) else as_r(re)
        self.im = im if isinstance(im, R) else as_r(im)
        self.pw = pw           # (base, k) of a power: 1/z**k is (1/z)**k

    def __add__(self, o):
        o = as_c(o)
        return NotImplemented if o is None else Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self): return Cx(-self.re, -self.im)
    def __pos__(self): return self

    def __sub__(self, o):
        o = as_c(o)
        return NotImplemented if o is None else Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = as_c(o)
        return NotImplemented if o is None else Cx(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = as_c(o)
        if o is None:
            return NotImplemented
        pw = None
        a, i = self.pw or (self, 1)
        b, j = o.pw or (o, 1)
        if a is b or (_CTX is not None and _CTX.abstract_recip and _ckey(a) == _ckey(b)):
            pw = (a, i + j)
        r = Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re, pw)
        if pw and _CTX is not None and _CTX.abstract_recip:
            _CTX.cpows[_ckey(r)] = r
        return r
    __rmul__ = __mul__

    def recip(self):
        if self.im.is_const and self.im.n == 0:
            return Cx(self.re.recip(), R(Fraction(0)))
        c = _CTX
        if c is not None and c.abstract_recip:
            back = c.crecips.get(_ckey(Cx(_simpr(self.re), _simpr(self.im))))
            if back is not None:
                return back[1]      # 1/(1/z)
            if not self.pw:
                self.pw = getattr(c.cpows.get(_ckey(self)), 'pw', None)
            if self.pw:
                return self.pw[0].recip() ** self.pw[1]
            re, im, sg = self.re, self.im, 1
            lead = re if not re.is_const else im
            if not lead.is_const and not lead.d:
                sg, k = c.factor(lead.n)
            re, im = re * sg, im * sg
            r = Cx(uf('crecip_re', re, im) * sg, uf('crecip_im', re, im) * sg)
            r = Cx(_simpr(r.re), _simpr(r.im))
            c.crecips[_ckey(r)] = (r, self)
            return r
        m = self.re * self.re + self.im * self.im
        inv = m.recip()
        return Cx(self.re * inv, -self.im * inv)

    def __truediv__(self, o):
        o = as_c(o)
        return NotImplemented if o is None else self * o.recip()

    def __rtruediv__(self, o):
        o = as_c(o)
        return NotImplemented if o is None else o * self.recip()

    def __pow__(self, k):
        if isinstance(k, R) and k.is_const:
            k = k.n
        if k != int(k):
            ctx().unsupported('complex power')
        k = int(k)
        if k < 0:
            return (self ** (-k)).recip()
        out = self if k else Cx(1, 0)
        for _ in range(k - 1):
            out = out * self
        return out

    def __abs__(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    def conjugate(self): return Cx(self.re, -self.im)
    conj = conjugate

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    @property
    def size(self): return 1
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0

    def copy(self): return self
    def item(self): return self
    def astype(self, dt): return self

    def __eq__(self, o):
        o = as_c(o)
        if o is None:
            return NotImplemented
        a, b = self.re == o.re, self.im == o.im
        return B(z3.And(bterm(a), bterm(b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r
    def __hash__(self): return 0      # as a key: found by comparison

    def __bool__(self): return bool(self != 0)

    def exp(self):
        c = ctx()
        if self.im.is_const and self.im.n == 0:
            return Cx(self.re.exp(), 0)
        c.unsupported('complex exp')

    def sqrt(self):
        """The principal root."""
        c = ctx()
        a, b = z3.Real(c.fresh('csqrt_re')), z3.Real(c.fresh('csqrt_im'))
        r = Cx(R(a), R(b))
        d = r * r
        for x, y in ((d.re, self.re), (d.im, self.im)):
            c.add(bterm(x == y))
        c.add(z3.Or(a > 0, z3.And(a == 0, b >= 0)))
        return r

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __repr__(self): return 'Cx(%r,%r)' % (self.re, self.im)
    def __format__(self, spec): return '<sym>'


numbers.Number.register(Cx)


def _simpr(x):
    if x.is_const or x.d:
        return x
    n = simp(x.n)
    if z3.is_rational_value(n):
        q = n.as_fraction()
        return R(Fraction(q.numerator, q.denominator))
    return R(n)


def _ckey(z):
    return tuple((x.n if isinstance(x.n, Fraction) else x.n.get_id(), x.d) for x in (z.re, z.im))


def as_c(o):
    if isinstance(o, Cx):
        return o
    if isinstance(o, numbers.Complex) and not isinstance(o, numbers.Real):
        return Cx(R(frac(o.real)), R(frac(o.imag)))
    r = as_r(o)
    if r is None:
        return None
    return Cx(r, R(Fraction(0)))


# --------------------------------------------------------------------------
# machine integers
# --------------------------------------------------------------------------
W = 64


def _bvv(k):
    return z3.BitVecVal(int(k), W)


class I:
    """Symbolic integer; arithmetic in 64-bit two's complement (no wrap within
    the stated input ranges), narrowed by the declared numba signatures."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f, rev=False):
        o = as_i(o)
        if o is None:
            return NotImplemented
        a, b = (o.t, self.t) if rev else (self.t, o.t)
        return I(z3.simplify(f(a, b)))

    def __add__(self, o):
        if isinstance(o, (float, R, Cx)): return self.to_r() + o
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (float, R, Cx)): return self.to_r() - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (float, R, Cx)): return o - self.to_r()
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (float, R, Cx)): return self.to_r() * o
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return I(z3.simplify(-self.t))
    def __pos__(self): return self
    def __invert__(self): return I(z3.simplify(~self.t))
    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __lshift__(self, o): return self._bin(o, lambda a, b: a << b)
    def __rlshift__(self, o): return self._bin(o, lambda a, b: a << b, True)
    def __rshift__(self, o): return self._bin(o, lambda a, b: a >> b)
    def __rrshift__(self, o): return self._bin(o, lambda a, b: a >> b, True)

    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __rmod__(self, o): return self._bin(o, lambda a, b: a % b, True)

    def __floordiv__(self, o):
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _floordiv, True)

    def __divmod__(self, o): return self // o, self % o

    def __truediv__(self, o):
        if isinstance(o, (float, R, Cx)):
            return self.to_r() / o
        o = as_i(o)
        return NotImplemented if o is None else Quot(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, (float, R, Cx)):
            return o / self.to_r()
        o = as_i(o)
        return NotImplemented if o is None else Quot(o, self)

    def __pow__(self, k):
        k = int(k)
        out = I(_bvv(1))
        for _ in range(k):
            out = out * self
        return out

    def __rpow__(self, b):
        if b == 2:
            return I(_bvv(1) << self.t)
        if b == -1:
            return 1 - 2 * (self % 2)
        if b in (-1.0,):
            return (1 - 2 * (self % 2)).to_r()
        ctx().unsupported('power with symbolic integer exponent')

    def __abs__(self): return I(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f):
        if isinstance(o, (R, float)) and not isinstance(o, bool):
            r = self.to_r()
            return f(r, o)
        o = as_i(o)
        if o is None:
            return NotImplemented
        c = z3.simplify(f(self.t, o.t))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return B(c)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    def to_r(self):
        s = z3.simplify(self.t)
        if z3.is_bv_value(s):
            return R(Fraction(s.as_signed_long()))
        return R(z3.ToReal(z3.BV2Int(self.t, True)))

    def __float__(self):
        return float(int(self))

    def __index__(self):
        """Concretise by forking over the feasible values."""
        c = ctx()
        s = z3.simplify(self.t)
        if z3.is_bv_value(s):
            return s.as_signed_long()
        return c.choose(self.t)

    __int__ = __index__

    def bit_length(self):
        ctx().unsupported('bit_length')

    def bit_count(self):
        t = _bvv(0)
        for k in range(W):
            t = t + ((self.t >> k) & 1)
        return I(t)

    def astype(self, dt): return self

    @property
    def size(self): return 1
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def real(self): return self

    def copy(self): return self
    def item(self): return self

    def __repr__(self): return 'I(%s)' % str(self.t)[:120]
    def __format__(self, spec): return '<sym>'


numbers.Number.register(I)


def _floordiv(a, b):
    # Python floor division through the (floor) modulus
    return (a - (a % b)) / b


class Quot:
    """int / int: an exact quotient awaiting truncation or use as a real."""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def trunc(self):
        # operands non-negative and below 2**34 here, where the float64
        # quotient truncates to the exact integer quotient
        return I(z3.UDiv(self.a.t, self.b.t))

    def __int__(self):
        return int(self.trunc())

    def __getattr__(self, name):
        ctx().unsupported('true division of symbolic integers')


def as_i(o):
    if isinstance(o, I):
        return o
    if isinstance(o, B):
        return o._i()
    if isinstance(o, bool):
        return I(_bvv(int(o)))
    if isinstance(o, int):
        return I(_bvv(o))
    if isinstance(o, numbers.Integral):
        return I(_bvv(int(o)))
    if type(o).__name__ in ('bool_', 'bool'):
        return I(_bvv(int(o)))
    return None
