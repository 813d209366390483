"""Harness framework: one harness function per instance, executed symbolically
(the solver decides) and concretely (counterexample replay and encoding
validation)."""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import threading
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, npx
from . import world as _world
from .core import R, Cx, I, B, as_r, as_c, bterm, term

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Invalid(Exception):
    """The concrete inputs do not satisfy an assumption."""


class Skip(BaseException):
    """An internal function this instance drives directly no longer exists
    (renamed, inlined or re-parameterised); the property is decided by the
    instances that go through the public interface."""


class Inst:
    def __init__(self, name, fn, params=None, timeout=120, max_paths=20000, div='assume',
                 query_ms=30000, world=None, raises_ok=(), need_obligation=True, note='',
                 tries=6, validate=True, witness=True, abstract_mul=False,
                 abstract_recip=False, normalize=False):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.params = params or {}
        self.world_kw = world or {}


class HBase:
    def fn(self, path):
        """An internal function of the code under test, by 'module.name'."""
        mod, name = path.split('.')
        f = getattr(getattr(self.world, mod), name, None)
        if f is None:
            raise Skip('no function %s' % path)
        return f

    def uints(self, xs):
        """One-dimensional uint32 array, entries possibly symbolic."""
        if self.sym:
            out = np.empty(len(xs), object)
            for i, x in enumerate(xs):
                out[i] = x
            return out.view(npx.SA)
        return np.array([int(x) for x in xs], np.uint32)

    def ints(self, xs):
        if self.sym:
            out = np.empty(len(xs), object)
            for i, x in enumerate(xs):
                out[i] = x
            return out.view(npx.SA)
        return np.array([int(x) for x in xs])

    def array(self, name, *shape, **kw):
        out = np.empty(shape, object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real(name + ''.join('_%d' % i for i in ix), **kw)
        return self.wrap(out)

    def symmetric(self, name, n, zero_diag=False):
        out = np.empty((n, n), object)
        for i in range(n):
            for j in range(i, n):
                if zero_diag and i == j:
                    out[i, i] = self.const(0)
                else:
                    out[i, j] = out[j, i] = self.real('%s_%d_%d' % (name, i, j))
        return self.wrap(out)

    def carray(self, name, *shape):
        out = np.empty(shape, object)
        for ix in np.ndindex(*shape):
            out[ix] = self.cplx(name + ''.join('_%d' % i for i in ix))
        return self.wrap(out)

    def eqs(self, pairs, label, **k):
        """Several (got, want) pairs under one label."""
        a, b = [], []
        for x, y in pairs:
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape:
                self.ok(False, '%s: shape %s vs %s' % (label, x.shape, y.shape))
                return
            a.extend(x.reshape(-1).tolist() if x.dtype != object else list(x.reshape(-1)))
            b.extend(y.reshape(-1).tolist() if y.dtype != object else list(y.reshape(-1)))
        self.eq(a, b, label, **k)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.ok(True, label)
            return
        self.ok(False, label)


class HSym(HBase):
    """Symbolic side."""
    sym = True

    def __init__(self, inst, cx, rec):
        self.inst, self.cx, self.rec = inst, cx, rec
        self._w = None
        self.tags = []

    @property
    def world(self):
        if self._w is None:
            self._w = self.new_world(**self.inst.world_kw)
        return self._w

    def new_world(self, **kw):
        return _world.World(True, **kw)

    def param(self, k):
        return self.inst.params[k]

    def const(self, x):
        return R(core.frac(x))

    def real(self, name, lo=None, hi=None, strict=False):
        if name in self.cx.inputs:
            return R(self.cx.inputs[name])
        r = self.cx.real(name)
        if lo is not None:
            self.cx.add(r.n > core._rv(core.frac(lo)) if strict else r.n >= core._rv(core.frac(lo)))
        if hi is not None:
            self.cx.add(r.n < core._rv(core.frac(hi)) if strict else r.n <= core._rv(core.frac(hi)))
        return r

    def cplx(self, name):
        return Cx(self.real(name + '.re'), self.real(name + '.im'))

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self.cx.bv(name, lo, hi)

    def pick(self, name, lo, hi):
        """Concrete integer, all values explored (fork)."""
        return int(self.int(name, lo, hi))

    def bool(self, name):
        return self.cx.boolean(name)

    def flag(self, name):
        return bool(self.cx.boolean(name))

    def wrap(self, a):
        return a.view(npx.SA)

    def assume(self, c):
        self.cx.assume(c)

    def witnesses_nonzero(self, x):
        self.cx.assume(x != 0)

    def eq(self, a, b, label, tol=None):
        A, Bb = np.asarray(a, object), np.asarray(b, object)
        if A.shape != Bb.shape:
            self._oblige([z3.BoolVal(True)], [], '%s: shape %s vs %s' % (label, A.shape, Bb.shape))
            return
        neg, mags = [], []
        for x, y in zip(A.reshape(-1), Bb.reshape(-1)):
            n, m = self._neq(x, y)
            neg += n
            mags += m
        self._oblige(neg, mags, label)

    def _neq(self, x, y):
        x, y = npx._l(x), npx._l(y)
        if isinstance(x, (I, B)) or isinstance(y, (I, B)):
            if isinstance(x, (R, Cx)) or isinstance(y, (R, Cx)):
                x, y = as_r(x), as_r(y)
            else:
                x, y = core.as_i(x), core.as_i(y)
                t = z3.simplify(x.t != y.t)
                return [t], []
        if isinstance(x, Cx) or isinstance(y, Cx):
            x, y = as_c(x), as_c(y)
            a, ma = self._neq(x.re, y.re)
            b, mb = self._neq(x.im, y.im)
            return a + b, ma + mb
        if isinstance(x, R) or isinstance(y, R):
            d = as_r(x) - as_r(y)
            if isinstance(d.n, Fraction):
                return [z3.BoolVal(d.n != 0)], []
            n = core.simp(d.n)
            return [n != 0], [(n, d.d)]
        if isinstance(x, (int, np.integer, Fraction, bool, np.bool_)) and \
                isinstance(y, (int, np.integer, Fraction, bool, np.bool_)):
            return [z3.BoolVal(x != y)], []
        return [z3.BoolVal(not (x == y))], []

    def ok(self, cond, label):
        if isinstance(cond, np.ndarray):
            neg = [z3.Not(bterm(c)) for c in cond.reshape(-1)]
        else:
            neg = [z3.Not(bterm(cond))]
        self._oblige(neg, [], label)

    def _oblige(self, neg, mags, label):
        cx = self.cx
        neg = [n for n in (z3.simplify(n) for n in neg)]
        live = [n for n in neg if not z3.is_false(n)]
        cx.obligations += max(1, len(neg))
        self.rec['obligations'] += max(1, len(neg))
        self.rec['labels'][label] = self.rec['labels'].get(label, 0) + max(1, len(neg))
        q = z3.Or(*live) if live else z3.BoolVal(False)
        r = cx.check(q)
        if r == z3.unknown and len(live) > 1:
            r = z3.unsat
            for n in live:
                ri = cx.check(n)
                if ri == z3.sat:
                    r, q = z3.sat, n
                    break
                if ri == z3.unknown:
                    ri = cx.retry(n)
                    if ri != z3.unsat:
                        r, q = ri, n
                        if ri == z3.sat:
                            break
        elif r == z3.unknown:
            r = cx.retry(q)
        if r == z3.unsat:
            self.rec['discharged'] += max(1, len(neg))
            return
        if r == z3.unknown:
            self.rec['inconclusive'].append('%s: solver unknown (%s)' % (label,
                                                                    cx.solver.reason_unknown()))
            # still try to exhibit a concrete failure from the path witness
            models = self._models([])
        else:
            models = self._models([q], mags)
        self.rec['failures'].append(dict(label=label, models=models))
        if len(self.rec['failures']) >= 4:
            raise _Stop()

    def _models(self, extra, mags=()):
        """Candidate assignments, nicest first."""
        cx = self.cx
        out = []
        bound = []
        for nm, t in cx.inputs.items():
            if t.sort() == z3.RealSort():
                bound += [t <= 5, t >= -5]
        big = [z3.Or(*[z3.Or(n > 1, n < -1) for n, d in mags])] if mags else []
        small = [z3.Or(*[z3.Or(n * 100 > 1, n * 100 < -1) for n, d in mags])] if mags else []
        cx.solver.push()
        cx.solver.set('timeout', 5000)
        try:
            for add in (bound + big, bound + small, bound, small, []):
                if cx.solver.check(*(extra + add)) == z3.sat:
                    out.append(self._vals(cx.solver.model()))
                    if len(out) >= 3:
                        break
        finally:
            cx.solver.set('timeout', cx.timeout_ms)
            cx.solver.pop()
        return out

    def _vals(self, m):
        vals = {}
        for nm, t in self.cx.inputs.items():
            v = m.eval(t, model_completion=False)
            if v.eq(t) and t.sort() != z3.BoolSort():
                continue
            vals[nm] = _pyval(v)
        return vals

    def witness(self):
        r = self.cx.check()
        if r == z3.sat:
            return self._vals(self.cx.solver.model())
        return None if r == z3.unsat else False


class _Stop(BaseException):
    pass


def _pyval(v):
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if z3.is_rational_value(v):
        if len(str(v)) > 300:
            return None
        f = v.as_fraction()
        return float(f)
    if z3.is_algebraic_value(v):
        return float(v.approx(15).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


class HConc(HBase):
    """Concrete side: the same harness on floats."""
    sym = False

    def __init__(self, inst, values, seed=0, scale=1.0):
        self.inst, self.values, self.seed, self.scale = inst, values or {}, seed, scale
        self._w = None
        self.failures = []
        self.checked = 0
        self.used = {}
        self.tags = []

    @property
    def world(self):
        if self._w is None:
            self._w = self.new_world(**self.inst.world_kw)
        return self._w

    def new_world(self, **kw):
        return _world.World(False, **kw)

    def param(self, k):
        return self.inst.params[k]

    def const(self, x):
        return float(x)

    def _rng(self, name):
        return random.Random('%s:%s' % (self.seed, name))

    def real(self, name, lo=None, hi=None, strict=False):
        v = self.values.get(name)
        if v is None:
            a = lo if lo is not None else (-2.0 if hi is None else hi - 3.0)
            b = hi if hi is not None else (2.0 if lo is None else lo + 3.0)
            v = self._rng(name).uniform(float(a), float(b))
        self.used[name] = v
        return float(v)

    def cplx(self, name):
        return complex(self.real(name + '.re'), self.real(name + '.im'))

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self.values.get(name)
        if v is None:
            v = self._rng(name).randint(lo, hi)
        self.used[name] = v
        if not lo <= v <= hi:
            raise Invalid(name)
        return int(v)
    pick = int

    def bool(self, name):
        v = self.values.get(name)
        if v is None:
            v = self._rng(name).random() < 0.5
        self.used[name] = bool(v)
        return bool(v)
    flag = bool

    def wrap(self, a):
        if a.size and any(isinstance(x, complex) for x in a.reshape(-1)):
            return a.astype(complex)
        return a.astype(float)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise Invalid('assumption')

    def witnesses_nonzero(self, x):
        if x == 0:
            raise Invalid('nonzero')

    def eq(self, a, b, label, tol=1e-7):
        tol = 1e-7 if tol is None else tol
        self.checked += 1
        a, b = _conv(a), _conv(b)
        if a.shape != b.shape:
            self.failures.append('%s: shape %s vs %s' % (label, a.shape, b.shape))
            return
        if a.size == 0:
            return
        with np.errstate(all='ignore'):
            sc = 1 + np.maximum(np.abs(a), np.abs(b))
            bad = ~((np.abs(a - b) <= tol * sc) | (a == b) | (np.isnan(a) & np.isnan(b)))
        if bad.any():
            k = int(np.argmax(bad.reshape(-1)))
            self.failures.append('%s: got %r, expected %r (element %d)'
                                 % (label, a.reshape(-1)[k].item(), b.reshape(-1)[k].item(), k))

    def ok(self, cond, label):
        self.checked += 1
        c = bool(np.all(cond))
        if not c:
            self.failures.append(label)


def _conv(a):
    if hasattr(a, 'tolist') and not isinstance(a, np.ndarray):
        a = np.asarray(a)
    a = np.asarray(a)
    if a.dtype == object:
        a = np.array(a.tolist())
        if a.dtype == object:          # numbers of mpmath
            a = a.astype(complex)
    if a.dtype.kind in 'biu':
        a = a.astype(float) if a.dtype.kind != 'u' else a.astype(float)
    return a


# --------------------------------------------------------------------------
# function coverage (which repo functions were executed)
# --------------------------------------------------------------------------
_seen = set()


def _start_trace():
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, 'symx')
    except ValueError:
        return
    mon.set_events(4, mon.events.PY_START)

    def cb(code, off):
        if _world is not None and code.co_filename.startswith(_world.REPO) and code.co_name != '<module>':
            _seen.add('%s:%s' % (os.path.relpath(code.co_filename, _world.REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, cb)


def _quiet():
    import warnings
    warnings.simplefilter('ignore')
    sys.set_int_max_str_digits(0)


def _seed():
    return int(os.environ.get('VERIF_SEED', '1') or 1)


def run_concrete(inst, values, seed=0):
    """-> (failures, checked, used values) or raises Invalid."""
    _quiet()
    h = HConc(inst, values, seed)
    old = core._CTX
    core._CTX = None
    try:
        with np.errstate(all='ignore'):
            try:
                inst.fn(h)
            except Invalid:
                raise
            except Exception as e:
                if _interface_changed(e):
                    raise Skip(str(e))
                if isinstance(e, OverflowError) and not _where():
                    raise Invalid('oracle overflows')
                if isinstance(e, AssertionError):
                    h.failures.append('unexpected exception: AssertionError: %s %s' % (e, _where()))
                else:
                    h.failures.append('unexpected exception: %s: %s %s' % (type(e).__name__, e, _where()))
    finally:
        core._CTX = old
    return h


def _where():
    tb = sys.exc_info()[2]
    out = ''
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(_world.REPO):
            out = '(%s:%d %s)' % (os.path.relpath(f.filename, _world.REPO), f.lineno, f.name)
    return out


_SIG = re.compile(r'positional argument|unexpected keyword|got multiple values for')


def _interface_changed(e):
    """A call from the harness does not fit the signature any more."""
    if not isinstance(e, TypeError) or not _SIG.search(str(e)):
        return False
    fr = traceback.extract_tb(sys.exc_info()[2])
    return fr[-1].filename.startswith(os.path.join(VERIF, 'checks'))


def _confirm(inst, rec, label, models, tries):
    """Replay models on the real code; random completions next."""
    cands = [(m, 1000 + k) for k, m in enumerate(models)]
    for k in range(tries):
        base = models[k % len(models)] if models and k % 2 == 0 else {}
        # keep the discrete part of the model, resample the reals
        base = {n: v for n, v in base.items() if not isinstance(v, float)}
        cands.append((base, 2000 + k))
    best = None
    for vals, seed in cands:
        try:
            h = run_concrete(inst, vals, seed)
        except (Invalid, Skip):
            continue
        if h.failures:
            same = [f for f in h.failures if f.startswith(label)]
            hit = dict(values=h.used, failures=h.failures[:6], label=label)
            if same:
                hit['failures'] = same[:3] + [f for f in h.failures if f not in same][:3]
                return hit
            best = best or hit
    return best


HANG_S = 12


def _hangs(inst, vals, seed):
    """Does the real code run on and on for these inputs?  (a child process:
    compiled code cannot be interrupted)"""
    pid = os.fork()
    if pid == 0:
        try:
            _die_with_parent()
            signal.setitimer(signal.ITIMER_REAL, 0)
            run_concrete(inst, vals, seed)
        except BaseException:
            pass
        finally:
            os._exit(0)
    end = time.time() + 5 * HANG_S
    while time.time() < end:
        p, _ = os.waitpid(pid, os.WNOHANG)
        if p:
            return False
        time.sleep(0.02)
        try:
            f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
            cpu = (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError):
            continue
        if cpu > HANG_S:
            break
    else:
        cpu = 0
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return cpu > HANG_S


def _check_hang(inst, rec, h):
    """The exploration ran out of time on this path: if the real code does not
    come to an end on the path's inputs either, that is a violation."""
    try:
        for vals in h._models([])[:1]:
            if _hangs(inst, vals, 1000):
                rec['violations'].append(dict(
                    values=vals, label='terminates',
                    failures=['terminates: the code did not come to an end on these inputs '
                              '(%d s of processor time)' % HANG_S]))
                return
    except core.Control:
        pass


def run_instance(inst):
    global _seen
    _quiet()
    t0 = time.time()
    _seen = set()
    _start_trace()
    sys.monitoring.restart_events()
    rec = dict(name=inst.name, obligations=0, discharged=0, labels={}, failures=[], inconclusive=[],
               violations=[], witness_ok=False, validated=0, note=inst.note)
    cx = core.Ctx(timeout_ms=inst.query_ms, max_paths=inst.max_paths,
                  deadline=t0 + inst.timeout)
    cx.div_policy = inst.div
    cx.abstract_mul = inst.abstract_mul
    cx.abstract_recip = inst.abstract_recip
    cx.normalize = inst.normalize
    wit = []
    holder = {}

    def body():
        h = holder['h'] = HSym(inst, cx, rec)
        rec['_ob0'] = rec['obligations']
        try:
            inst.fn(h)
        except core.Budget:
            signal.setitimer(signal.ITIMER_REAL, 0)
            _check_hang(inst, rec, h)
            raise
        except core.Control:
            raise
        except (_Stop, Skip):
            raise
        except Exception as e:
            if _interface_changed(e):
                raise Skip(str(e))
            if cx.failed_control is not None:
                raise cx.failed_control
            msg = '%s: %s %s' % (type(e).__name__, e, _where())
            models = h._models([])
            if not models:
                r = cx.check()
                if r == z3.unsat:
                    cx.abort('infeasible')
            rec['failures'].append(dict(label='unexpected exception', models=models, exc=msg,
                                        tb=traceback.format_exc()[-1500:]))
            if len(rec['failures']) >= 4:
                raise _Stop()
            return
        if cx.failed_control is not None:
            return
        if inst.witness and (len(wit) < 3 or not rec['witness_ok']):
            w = h.witness()
            if w is None:
                rec['inconclusive'].append('path condition unsatisfiable at the end of a path')
            elif w is not False:
                rec['witness_ok'] = True
                if len(wit) < 3:
                    wit.append(w)

    skipped = None

    def alarm(*_):
        cx._fail(core.Budget('time budget exhausted (loop without a decision)'))
    main_thread = threading.current_thread() is threading.main_thread()
    try:
        if main_thread:
            signal.signal(signal.SIGALRM, alarm)
            signal.setitimer(signal.ITIMER_REAL, inst.timeout + 8, 1.0)
        core.explore(cx, body)
    except _Stop:
        pass
    except Skip as e:
        skipped = str(e)
        rec['failures'] = []
    except core.Unsupported as e:
        rec['inconclusive'].append('not encodable: %s' % e)
        rec['tb'] = traceback.format_exc()[-1800:]
    except core.Budget as e:
        rec['inconclusive'].append('budget: %s' % e)
    except Exception as e:
        rec['inconclusive'].append('engine error %s: %s' % (type(e).__name__, e))
        rec['tb'] = traceback.format_exc()[-1800:]
    finally:
        if main_thread:
            signal.setitimer(signal.ITIMER_REAL, 0)
        core._CTX = None
    # counterexamples must reproduce on the real code
    rec['skipped'] = skipped
    for f in rec['failures']:
        hit = _confirm(inst, rec, f['label'], f['models'], inst.tries)
        if hit:
            rec['violations'].append(hit)
        else:
            rec['inconclusive'].append('counterexample for "%s" did not replay: %s %s'
                                       % (f['label'], f.get('exc', ''), str(f['models'][:1])[:300]))
            if 'tb' in f:
                rec['tb'] = f['tb']
    if not rec['violations'] and skipped is None:
        if inst.need_obligation and rec['obligations'] == 0 and not rec['inconclusive']:
            rec['inconclusive'].append('vacuous: no obligation reached')
        if inst.witness and not rec['witness_ok'] and not rec['inconclusive']:
            rec['inconclusive'].append('vacuous: no satisfiable path witness')
    # encoding validation: the same harness on the real numpy/scipy floats
    if inst.validate and not rec['violations']:
        runs = [(w, 10 + k) for k, w in enumerate(wit[:1])] + [({}, 31 + _seed())]
        for vals, seed in runs:
            try:
                h = run_concrete(inst, vals, seed)
            except (Invalid, Skip):
                continue
            rec['validated'] += 1
            if h.failures:
                rec['violations'].append(dict(values=h.used, failures=h.failures[:6],
                                              label='validation run'))
                break
    rec['stats'] = cx.stats.asdict()
    rec['assumed_nonzero'] = sorted(cx.assumed_nonzero)[:40]
    rec['functions'] = sorted(_seen)
    rec['wall'] = time.time() - t0
    for f in rec['failures']:
        f.pop('models', None)
        f.pop('tb', None)
    return rec


def _worker(args):
    mod, idx, tier = args
    try:
        m = importlib.import_module('checks.' + mod)
        inst = list(m.instances(tier))[idx]
        rec = run_instance(inst)
        # an abstraction that is too coarse is refined before giving up
        for mode in ((True, inst.abstract_recip), (False, False)):
            if not rec['inconclusive'] or rec['violations'] or not inst.abstract_mul \
                    or any('budget' in x for x in rec['inconclusive']):
                break
            if mode[0] == inst.abstract_mul and mode[1] == inst.abstract_recip:
                continue
            inst.abstract_mul, inst.abstract_recip = mode
            rec = run_instance(inst)
        return rec
    except BaseException as e:
        return dict(name='%s[%d]' % (mod, idx), obligations=0, discharged=0, labels={}, failures=[],
                    inconclusive=['worker error %s: %s' % (type(e).__name__, e)], violations=[],
                    witness_ok=False, validated=0, stats=core.Stats().asdict(), functions=[],
                    assumed_nonzero=[], wall=0.0, tb=traceback.format_exc()[-1500:], note='')


def _limit():
    import resource
    lim = 6 * 1024 ** 3
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) instance=(\S+) label="([^"]*)" (.*)', ln.strip())
            if m:
                out.append(m.groups())
    return out


def _is_known(known, r, v):
    kf = None
    for k in known:
        if k[1] == r['name'] and any(f.startswith(k[2]) for f in v['failures']):
            others = [f for f in v['failures'] if not any(
                f.startswith(q[2]) for q in known if q[1] == r['name'])]
            if not others:
                kf = k
    return kf


def _empty_rec(name, why):
    return dict(name=name, obligations=0, discharged=0, labels={}, failures=[], inconclusive=[why],
                violations=[], witness_ok=False, validated=0, stats=core.Stats().asdict(),
                functions=[], assumed_nonzero=[], wall=0.0, note='')


def _die_with_parent():
    try:                                # do not outlive the check
        import ctypes
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except Exception:
        pass


def _serve(conn):
    _limit()
    _die_with_parent()
    while True:
        job = conn.recv()
        if job is None:
            return
        conn.send(_worker(job))


def _schedule(ctxm, mod, tier, insts, order, n, limit, known):
    """Runs the instances on n processes; one that overruns is ended and replaced."""
    from multiprocessing.connection import wait
    todo = list(order)
    free, busy = [], {}
    done = 0

    def spawn():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_serve, args=(b,), daemon=True)
        p.start()
        b.close()
        free.append([p, a, 0])

    def end(w):
        w[0].kill()
        w[0].join()
        w[1].close()
    try:
        while todo or busy:
            now = time.time()
            while todo and now < limit and len(busy) < n:
                if not free:
                    spawn()
                w = free.pop()
                i = todo.pop(0)
                w[1].send((mod, i, tier))
                w[2] += 1
                busy[w[1]] = (w, i, now + 2 * insts[i].timeout + 60)
            if now >= limit:
                for i in todo:
                    yield i, _empty_rec(insts[i].name, 'wall-clock limit')
                todo = []
            if not busy:
                continue
            first = min(min(x[2] for x in busy.values()), limit)
            for c in wait(list(busy), timeout=max(0.05, first - time.time())):
                w, i, _ = busy.pop(c)
                try:
                    rec = c.recv()
                except Exception as e:          # the process was ended from outside
                    end(w)
                    yield i, _empty_rec(insts[i].name, 'worker lost: %s' % type(e).__name__)
                    continue
                if w[2] >= 8:
                    c.send(None)
                    w[0].join(5)
                    end(w)
                else:
                    free.append(w)
                if any(not _is_known(known, rec, v) for v in rec['violations']):
                    limit = min(limit, time.time() + float(os.environ.get('VERIF_GRACE_S', '45')))
                yield i, rec
            now = time.time()
            for c in list(busy):
                w, i, t = busy[c]
                if now >= min(t, limit):
                    busy.pop(c)
                    end(w)
                    yield i, _empty_rec(insts[i].name, 'wall-clock limit')
    finally:
        for w in free + [x[0] for x in busy.values()]:
            end(w)


def main(prop, tier, replay=None, only=None, jobs=None):
    t0 = time.time()
    seed = _seed()
    mod = prop.lower()
    sys.path.insert(0, VERIF)
    m = importlib.import_module('checks.' + mod)
    insts = list(m.instances(tier))
    if replay:
        d = json.load(open(replay))
        for tr in ('quick', 'thorough'):
            for inst in m.instances(tr):
                if inst.name == d['instance']:
                    if d.get('label') == 'terminates':
                        hang = _hangs(inst, d['values'], 1000)
                        print('FAIL does not terminate' if hang else 'terminates')
                        return 1 if hang else 0
                    h = run_concrete(inst, d['values'])
                    for f in h.failures:
                        print('FAIL', f)
                    print('replay: %d failures, %d checks' % (len(h.failures), h.checked))
                    return 1 if h.failures else 0
        print('unknown instance')
        return 2
    idxs = [i for i, x in enumerate(insts) if not only or re.search(only, x.name)]
    order = sorted(idxs, key=lambda i: -getattr(insts[i], 'timeout', 0))
    recs = []
    n = jobs or min(8, os.cpu_count() or 1, max(1, len(idxs)))
    ctxm = mp.get_context('fork')
    known = [k for k in load_known() if k[0] == prop]
    limit = t0 + float(os.environ.get('VERIF_CHECK_S', '780' if tier == 'quick' else '40000'))
    for i, rec in _schedule(ctxm, mod, tier, insts, order, n, limit, known):
        recs.append(rec)
    recs.sort(key=lambda r: r['name'])
    status = 0
    nviol = 0
    known_hit = set()
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for r in recs:
        for v in r['violations']:
            kf = _is_known(known, r, v)
            if kf:
                known_hit.add(kf)
                continue
            nviol += 1
            path = os.path.join(VERIF, 'replays', '%s_%d.json' % (prop, nviol))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, instance=r['name'], label=v['label'],
                               failures=v['failures'], values=v['values'],
                               replay='python3-vt check.py %s --replay %s' % (prop, path)), f,
                          indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  instance %s: %s' % (r['name'], '; '.join(v['failures'][:3])[:600]))
            status = 1
    for k in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (prop, k[1], k[2], k[3]))
    inc = [(r['name'], x, r.get('tb')) for r in recs for x in r['inconclusive']
           if not r['violations']]
    for nme, x, tb in inc:
        print('INCONCLUSIVE %s: %s' % (nme, x[:500]))
        if tb and os.environ.get('VERIF_DEBUG'):
            print(tb)
    skips = [(r['name'], r['skipped']) for r in recs if r.get('skipped')]
    for nme, x in skips:
        print('SKIPPED %s: %s' % (nme, x))
    bad = set(x[0] for x in inc) | set(x[0] for x in skips)
    # held on everything explored; a check that could decide less than half of
    # its instances gives no verdict
    if status == 0 and 2 * len(bad) > len(recs):
        status = 2
    tot = lambda k: sum(r['stats'][k] for r in recs)
    fn = sorted(set(f for r in recs for f in r['functions']))
    ob, dis = sum(r['obligations'] for r in recs), sum(r['discharged'] for r in recs)
    wall = time.time() - t0
    cov = dict(
        explanation=getattr(m, 'EXPLAIN', ''),
        bounds=getattr(m, 'BOUNDS', {}).get(tier, '') if isinstance(getattr(m, 'BOUNDS', ''), dict)
        else m.BOUNDS,
        outside=getattr(m, 'OUTSIDE', ''),
        instances=len(recs), paths=tot('paths'), forks=tot('forks'), infeasible_paths=tot('aborted'),
        queries=tot('queries'), unsat=tot('unsat'), sat=tot('sat'), unknown=tot('unknown'),
        solver_seconds=round(tot('solver_time'), 2), obligations=ob, discharged=dis,
        functions_encoded=fn,
        c_and_cython=getattr(m, 'NATIVE', []),
        stubs=getattr(m, 'STUBS', []),
        concrete_validation_runs=sum(r['validated'] for r in recs),
        witnesses=sum(1 for r in recs if r['witness_ok']),
        inconclusive=[list(x[:2]) for x in inc],
        skipped=[list(x) for x in skips],
        samples=[dict(instance=r['name'], paths=r['stats']['paths'], obligations=r['obligations'],
                      queries=r['stats']['queries'], wall_s=round(r['wall'], 2),
                      labels=r['labels']) for r in recs[:400]])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=list(getattr(m, 'ASSUME', [])) + BASE_ASSUME, wall_s=round(wall, 2),
              violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d instances, %d paths, %d obligations (%d discharged), %d queries, '
          'solver %.1fs, wall %.1fs -> %s'
          % (prop, tier, len(recs), tot('paths'), ob, dis, tot('queries'), tot('solver_time'), wall,
             {0: 'held', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[status]))
    if os.environ.get('VERIF_DEBUG'):
        for r in sorted(recs, key=lambda r: -r['wall'])[:12]:
            print('   %7.2fs %5d paths %5d ob  %s' % (r['wall'], r['stats']['paths'],
                                                     r['obligations'], r['name']))
    return status


BASE_ASSUME = [
    'float64 arithmetic is read as exact real arithmetic (float literals by their decimal value); '
    'rounding, overflow, inf and nan are outside the claim',
    'denominators whose sign is not decided by the code are assumed non-zero',
    'numba-compiled functions have the semantics of their Python source with the integer narrowing '
    'of their declared signatures',
]


def cli():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    sys.exit(main(a.prop.upper(), a.tier, a.replay, a.only, a.jobs))
