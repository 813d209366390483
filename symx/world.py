"""Loads edpyt's modules from /repo's current source into an isolated
namespace, with stand-ins for numba, scipy.sparse, mpi4py, LAPACK, ..."""
import ast
import builtins
import math
import os
import re
import sys
import types
from fractions import Fraction

import numpy as _np
import z3

from . import core, npx
from .core import R, Cx, I, B, Quot, ctx

REPO = os.environ.get('EDPYT_REPO', '/repo')


# --------------------------------------------------------------------------
# numba
# --------------------------------------------------------------------------
class _AnyType:
    """numba type object: indexable, callable, comparable to nothing."""

    def __init__(self, name):
        self.name = name

    def __getitem__(self, ix):
        return self

    def __call__(self, *a, **k):
        # a signature such as float64(Array(...), uint32)
        return Sig(self, [x for x in a if isinstance(x, (_AnyType, Sig))])

    def __repr__(self):
        return self.name


class Sig:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args

    def __getitem__(self, ix):
        return self

    def __call__(self, *a, **k):
        return self


_INT_RE = re.compile(r'^(u?int)(8|16|32|64)$')


def _parse_sig(s):
    """'uint32(uint32,int64)' -> (ret string, [arg strings])"""
    s = s.replace(' ', '')
    m = re.match(r'^(.*?)\((.*)\)$', s)
    if not m:
        return None
    # the return type may itself contain parentheses: match the last group
    depth = 0
    for k in range(len(s) - 1, -1, -1):
        if s[k] == ')':
            depth += 1
        elif s[k] == '(':
            depth -= 1
            if depth == 0:
                break
    ret, args = s[:k], s[k + 1:-1]
    out, depth, cur = [], 0, ''
    for ch in args:
        if ch in '([':
            depth += 1
        if ch in ')]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return ret, out


def _conv_int(bits, unsigned, v):
    if isinstance(v, Quot):
        v = v.trunc()
    if isinstance(v, B):
        v = v._i()
    if isinstance(v, I):
        if bits == 64:
            return v
        t = z3.Extract(bits - 1, 0, v.t)
        return I(z3.simplify(z3.ZeroExt(64 - bits, t) if unsigned else z3.SignExt(64 - bits, t)))
    if isinstance(v, (bool, _np.bool_)):
        v = int(v)
    if isinstance(v, (int, _np.integer)):
        x = int(v) & ((1 << bits) - 1)
        if not unsigned and x >> (bits - 1):
            x -= 1 << bits
        return getattr(_np, ('u' if unsigned else '') + 'int%d' % bits)(x)
    return v


def _pyint(v):
    """Scalars enter a compiled body as wide integers (numba promotes
    uint32 with int64 to int64)."""
    return int(v) if isinstance(v, _np.integer) else v


def _converter(typ):
    t = typ if isinstance(typ, str) else getattr(typ, 'name', '')
    t = t.replace(' ', '')
    m = _INT_RE.match(t)
    if m:
        u, b = m.group(1) == 'uint', int(m.group(2))
        return lambda v: _conv_int(b, u, v)
    m = re.match(r'^Tuple\(\((.*)\)\)$', t)
    if m:
        cs = [_converter(x) for x in m.group(1).split(',')]
        return lambda v: tuple(c(x) if c else x for c, x in zip(cs, v)) \
            if isinstance(v, tuple) and len(v) == len(cs) else v
    m = re.match(r'^UniTuple\((.*),(\d+)\)$', t)
    if m:
        c = _converter(m.group(1))
        return lambda v: tuple(c(x) for x in v) if c and isinstance(v, tuple) else v
    return None


def _jit_wrap(f, sig, world):
    """Apply the integer narrowing the declared signature implies."""
    sigs = sig if isinstance(sig, (list, tuple)) and all(isinstance(x, str) for x in sig) else [sig]
    sigs = [s for s in sigs if isinstance(s, str)]
    parsed = [p for p in (_parse_sig(s) for s in sigs) if p]
    if parsed:
        ret, args = parsed[0]
        cret = _converter(ret)
        cargs = [_converter(a) for a in args]
    else:
        cret, cargs = None, []

    def g(*a, **k):
        a = [_pyint(x) for x in a]
        for i, c in enumerate(cargs):
            if c and i < len(a):
                a[i] = _pyint(c(a[i]))
        r = f(*a, **k)
        return cret(r) if cret else r
    g.__name__ = getattr(f, '__name__', 'jit')
    g.__wrapped__ = f
    g.py_func = f
    return g


def _numba(world):
    nb = types.ModuleType('numba')

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not isinstance(a[0], (_AnyType, Sig)):
            return _jit_wrap(a[0], None, world)
        sig = a[0] if a else k.get('signature')
        return lambda f: _jit_wrap(f, sig, world)
    nb.njit = nb.jit = njit
    nb.generated_jit = njit

    def prange(*a):
        return world.prange(*a)
    nb.prange = prange

    def vectorize(*a, **k):
        def deco(f):
            def g(*args):
                if any(isinstance(x, (_np.ndarray, list, tuple)) for x in args):
                    arrs = _np.broadcast_arrays(*[_np.asarray(x) for x in args])
                    o = _np.empty(arrs[0].shape, object)
                    for ix in _np.ndindex(o.shape):
                        o[ix] = f(*[x[ix] for x in arrs])
                    return world.from_objs(o)
                return f(*args)
            g.__name__ = f.__name__
            return g
        if len(a) == 1 and callable(a[0]) and not isinstance(a[0], (_AnyType, Sig)):
            return deco(a[0])
        return deco
    nb.vectorize = vectorize

    def guvectorize(sig, layout=None, **k):
        def deco(f):
            ins, outs = layout.replace(' ', '').split('->')
            ins = re.findall(r'\(([^)]*)\)', ins)
            outs = re.findall(r'\(([^)]*)\)', outs)
            cplx = 'complex' in str(sig).split(',')[-1]

            def g(*args, out=None):
                args = list(args)
                if len(args) > len(ins) and out is None:
                    out = args.pop()
                args = [_np.asarray(a) for a in args]
                dims = {}
                loops = []
                for lab, a in zip(ins, args):
                    ls = [x for x in lab.split(',') if x]
                    if a.ndim < len(ls):
                        raise ValueError('input operand does not have enough dimensions')
                    for nm, d in zip(ls, a.shape[a.ndim - len(ls):]):
                        if dims.setdefault(nm, d) != d:
                            raise ValueError('core dimension mismatch')
                    loops.append(a.shape[:a.ndim - len(ls)])
                lshape = _np.broadcast_shapes(*loops)
                oshape = lshape + tuple(dims[x] for x in outs[0].split(',') if x)
                if out is None:
                    out = world.np.empty(oshape, complex if cplx else float)
                bargs = []
                for lab, a in zip(ins, args):
                    nc = len([x for x in lab.split(',') if x])
                    bargs.append(_np.broadcast_to(a, lshape + a.shape[a.ndim - nc:]))
                for ix in _np.ndindex(*lshape):
                    f(*[npx.wrap(a[ix]) for a in bargs], out[ix] if lshape else out)
                return out
            g.__name__ = f.__name__
            return g
        return deco
    nb.guvectorize = guvectorize
    ty = types.ModuleType('numba.types')
    for n in ('float64', 'float32', 'uint32', 'int32', 'int64', 'uint64', 'boolean', 'complex128',
              'void', 'Array', 'Tuple', 'UniTuple', 'intp', 'uint8', 'int8', 'b1', 'f8', 'i8',
              'u4', 'i4', 'u8'):
        setattr(ty, n, _AnyType(n))
        setattr(nb, n, _AnyType(n))
    nb.types = ty
    nb.typeof = lambda x: _AnyType('t')
    nb.get_num_threads = lambda: 1
    nb.set_num_threads = lambda n: None
    nb.config = types.SimpleNamespace()
    dec = types.ModuleType('numba.core.decorators')
    dec.njit = dec.jit = njit
    core_ = types.ModuleType('numba.core')
    core_.decorators = dec
    core_.types = ty
    nb.core = core_
    return {'numba': nb, 'numba.types': ty, 'numba.core': core_,
            'numba.core.types': ty, 'numba.core.decorators': dec}


# --------------------------------------------------------------------------
# scipy stand-ins
# --------------------------------------------------------------------------
def make_sparse(world):
    np_ = world.np

    class csr_matrix:
        """Compressed rows with duplicate entries summed on densification."""
        format = 'csr'
        ndim = 2

        def __init__(self, arg1, shape=None, dtype=None, copy=False):
            if isinstance(arg1, tuple) and len(arg1) == 3:
                d, ix, ptr = arg1
                self.data = np_.array(d) if copy or not isinstance(d, _np.ndarray) else d
                self.indices = _np.array(ix, dtype=_np.int32).reshape(-1)
                self.indptr = _np.array(ptr, dtype=_np.int32).reshape(-1)
                if shape is None:
                    raise ValueError('shape')
                self.shape = tuple(int(x) for x in shape)
                if self.indptr.size != self.shape[0] + 1:
                    raise ValueError('index pointer size %d should be %d'
                                     % (self.indptr.size, self.shape[0] + 1))
                if self.indptr[0] != 0:
                    raise ValueError('index pointer should start with 0')
                if len(self.indices) != len(self.data):
                    raise ValueError('indices and data should have the same size')
                if self.indptr[-1] > len(self.indices):
                    raise ValueError('Last value of index pointer should be less than '
                                     'the size of index and data arrays')
                # scipy prunes to nnz
                nnz = int(self.indptr[-1])
                self.data, self.indices = self.data[:nnz], self.indices[:nnz]
                if nnz and (self.indices.min() < 0 or self.indices.max() >= self.shape[1]):
                    raise ValueError('column index out of range')
                if any(self.indptr[i] > self.indptr[i + 1] for i in range(self.shape[0])):
                    raise ValueError('indptr must be non-decreasing')
            elif isinstance(arg1, tuple) and len(arg1) == 2 and isinstance(arg1[1], tuple):
                d, (ri, ci) = arg1
                dense = np_.zeros(shape)
                for v, i, j in zip(d, ri, ci):
                    dense[int(i), int(j)] = dense[int(i), int(j)] + v
                self._from_dense(dense)
            elif isinstance(arg1, csr_matrix):
                self.data, self.indices, self.indptr = arg1.data, arg1.indices, arg1.indptr
                self.shape = arg1.shape
            elif isinstance(arg1, tuple):
                self._from_dense(np_.zeros(arg1))
            else:
                self._from_dense(np_.asarray(arg1))
            self.dtype = _np.dtype(float)

        def _from_dense(self, a):
            a = _np.asarray(a)
            data, ix, ptr = [], [], [0]
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    v = a[i, j]
                    if isinstance(v, R) and v.is_const and v.n == 0 or (not npx.is_sym(v) and v == 0):
                        continue
                    data.append(v)
                    ix.append(j)
                ptr.append(len(data))
            self.data = np_.array(data) if data else np_.zeros(0)
            self.indices = _np.array(ix, _np.int32)
            self.indptr = _np.array(ptr, _np.int32)
            self.shape = a.shape

        @property
        def nnz(self):
            return int(self.indptr[-1])

        def todense(self, order=None, out=None):
            if out is None:
                out = np_.zeros(self.shape)
            for i in range(self.shape[0]):
                for p in range(self.indptr[i], self.indptr[i + 1]):
                    j = self.indices[p]
                    out[i, j] = out[i, j] + self.data[p]
            return out

        def toarray(self, order=None, out=None):
            return csr_matrix.todense(self, order, out)

        @property
        def A(self):
            return csr_matrix.todense(self)

        def dot(self, v):
            if isinstance(v, csr_matrix):
                return csr_matrix(csr_matrix.todense(self).dot(csr_matrix.todense(v)))
            return np_.dot(csr_matrix.todense(self), v)
        __matmul__ = dot

        def __mul__(self, v):
            return self.dot(v)

        def __add__(self, o):
            return csr_matrix(csr_matrix.todense(self) + csr_matrix.todense(o))

        @property
        def T(self):
            return csr_matrix(csr_matrix.todense(self).T)

        def transpose(self, *a, **k):
            return self.T

        def tocsr(self, copy=False):
            return self

        def copy(self):
            return csr_matrix((self.data.copy(), self.indices.copy(), self.indptr.copy()), self.shape)

        def diagonal(self, k=0):
            return _np.diagonal(csr_matrix.todense(self), k)

        def sum_duplicates(self):
            d = csr_matrix(csr_matrix.todense(self))
            self.data, self.indices, self.indptr = d.data, d.indices, d.indptr

        def sort_indices(self):
            self.sum_duplicates()

        def getnnz(self, axis=None):
            return self.nnz

    def kron(a, b, format=None):
        return csr_matrix(np_.kron(_d(a), _d(b)))

    def _d(a):
        return csr_matrix.todense(a) if isinstance(a, csr_matrix) else np_.asarray(a)

    def kronsum(a, b, format=None):
        a, b = _d(a), _d(b)
        return csr_matrix(np_.kron(np_.eye(b.shape[0]), a) + np_.kron(b, np_.eye(a.shape[0])))

    def eye(m, n=None, k=0, dtype=float, format=None):
        return csr_matrix(np_.eye(m, n, k))

    def diags(d, offsets=0, shape=None, format=None, dtype=None):
        if isinstance(offsets, (list, tuple)):
            s = None
            for x, k in zip(d, offsets):
                m = np_.diag(np_.asarray(x), k)
                s = m if s is None else s + m
            return csr_matrix(s)
        return csr_matrix(np_.diag(np_.asarray(d), offsets))

    def issparse(x):
        return isinstance(x, csr_matrix)
    return types.SimpleNamespace(csr_matrix=csr_matrix, csr_array=csr_matrix, kron=kron,
                                 kronsum=kronsum, eye=eye, identity=eye, diags=diags,
                                 issparse=issparse, isspmatrix=issparse, isspmatrix_csr=issparse,
                                 coo_matrix=csr_matrix, spmatrix=csr_matrix)


def _mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


def _blas(world):
    """scipy.linalg.blas level-1 wrappers with scipy's calling convention."""
    def get_blas_funcs(names, arrays=(), dtype=None, **k):
        def axpy(x, y, n=None, a=1.0, offx=0, incx=1, offy=0, incy=1):
            n = len(x) if n is None else n
            for i in range(n):
                y[offy + i * incy] = y[offy + i * incy] + a * x[offx + i * incx]
            return y

        def scal(a, x, n=None, offx=0, incx=1):
            n = len(x) if n is None else n
            for i in range(n):
                x[offx + i * incx] = a * x[offx + i * incx]
            return x

        def swap(x, y, *a, **k):
            for i in range(len(x)):
                x[i], y[i] = y[i], x[i]
            return x, y

        def dot(x, y, *a, **k):
            return world.np.dot(x, y)

        def copy(x, y, *a, **k):
            y[...] = x
            return y

        def nrm2(x, *a, **k):
            return world.np.linalg.norm(x)
        tab = dict(axpy=axpy, scal=scal, swap=swap, dot=dot, copy=copy, nrm2=nrm2,
                   daxpy=axpy, dscal=scal, dswap=swap, ddot=dot, dcopy=copy, dnrm2=nrm2)
        if isinstance(names, str):
            return tab[names]
        return [tab[n] for n in names]
    return get_blas_funcs


class World:
    """One instance of edpyt, symbolic or concrete."""

    def __init__(self, symbolic, comm_mod=None, stubs=None, psparse='pyx'):
        self.symbolic = symbolic
        self.np = npx.SymNP(self) if symbolic else npx.ConcNP(self)
        self.modules = {}
        self.stubs = stubs or {}
        self.psparse_kind = psparse
        self.comm_mod = comm_mod
        self.prange_order = 'forward'
        self.ext = {}
        self.ext.update(_numba(self))
        self.sources = {}
        self.poison_n = 0
        self.prints = []
        self.eigh_hook = None
        self.eig_hook = None
        self._fn_seen = set()
        self._setup_ext()
        self.builtins = self._builtins()

    # hooks used by SymNP ----------------------------------------------------
    def garbage(self, dtype=None):
        c = ctx()
        if npx._std(dtype).kind == 'c':
            return Cx(R(z3.Real(c.fresh('uninit'))), R(z3.Real(c.fresh('uninit'))))
        return R(z3.Real(c.fresh('uninit')))

    def int_poison(self, dt):
        return 7 if dt.itemsize < 4 else 1431655765

    def prange(self, *a):
        r = range(*[int(x) for x in a])
        return reversed(r) if self.prange_order == 'reverse' else r

    def from_objs(self, o):
        if self.symbolic:
            return npx.wrap(o) if o.ndim else o[()]
        return _np.array(o.tolist()) if o.ndim else o[()]

    def eigh(self, a):
        if self.eigh_hook is None:
            ctx().unsupported('eigh')
        return self.eigh_hook(a)

    def eig(self, a):
        if self.eig_hook is None:
            ctx().unsupported('eig')
        return self.eig_hook(a)

    # module table -----------------------------------------------------------
    def _setup_ext(self):
        e = self.ext
        e['matplotlib'] = _mod('matplotlib', pyplot=_mod('pyplot'))
        e['matplotlib.pyplot'] = e['matplotlib'].pyplot
        e['ase'] = _mod('ase')
        e['ase.neighborlist'] = _mod('ase.neighborlist', build_neighbor_list=None)
        e['traitlets'] = _mod('traitlets', default=None)
        e['traitlets.traitlets'] = e['traitlets']
        if self.symbolic:
            sp = _mod('scipy.sparse', **make_sparse(self).__dict__)
        else:
            import scipy.sparse as real_sp
            sp = _mod('scipy.sparse', **{k: v for k, v in real_sp.__dict__.items()
                                         if not k.startswith('__')})
        lin = _mod('scipy.sparse.linalg')
        lin.LinearOperator = type('LinearOperator', (), {})
        arp = _mod('scipy.sparse.linalg.eigen.arpack')
        arp._arpack = _mod('_arpack', dsaupd=self._stub_caller('arpack.dsaupd'),
                           dseupd=self._stub_caller('arpack.dseupd'))
        inner = _mod('scipy.sparse.linalg.eigen.arpack.arpack')
        inner.DSAUPD_ERRORS = {0: 'Normal exit.', 1: 'Maximum number of iterations taken.',
                               3: 'No shifts could be applied.', -1: 'N must be positive.',
                               -9: 'Starting vector is zero.', -9999: 'Could not build.'}
        inner.DSEUPD_ERRORS = {0: 'Normal exit.', -1: 'N must be positive.',
                               -14: 'DSAUPD did not find any eigenvalues.', -8: 'LAPACK error.'}
        inner._SymmetricArpackParams = None
        inner._ARPACK_LOCK = None
        e['scipy.sparse.linalg.eigen'] = _mod('scipy.sparse.linalg.eigen', arpack=arp)
        e['scipy.sparse.linalg.eigen.arpack'] = arp
        e['scipy.sparse.linalg.eigen.arpack.arpack'] = inner
        import scipy.special as real_special

        def binom(n, k):
            # numpy < 1.25 stores arrays with one element as scalars
            r = real_special.binom(n, k)
            return r.reshape(())[()] if isinstance(r, _np.ndarray) and r.size == 1 else r
        e['scipy.special'] = _mod('scipy.special', **{
            k: v for k, v in real_special.__dict__.items() if not k.startswith('__')})
        e['scipy.special'].binom = binom
        e['scipy._lib._util'] = _mod('scipy._lib._util',
                                     _aligned_zeros=lambda n, dt: self.np.zeros(n, dt))
        lin.interface = _mod('scipy.sparse.linalg.interface', LinearOperator=lin.LinearOperator)
        sp.linalg = lin
        e['scipy.sparse'] = sp
        e['scipy.sparse.linalg'] = lin
        e['scipy.sparse.linalg.interface'] = lin.interface
        e['scipy.linalg.blas'] = _mod('scipy.linalg.blas', get_blas_funcs=_blas(self))
        lap = _mod('scipy.linalg.lapack')
        lap.get_lapack_funcs = lambda names, *a, **k: \
            (self._lapack(names) if isinstance(names, str) else [self._lapack(n) for n in names])
        e['scipy.linalg.lapack'] = lap
        opt = _mod('scipy.optimize')
        for n in ('broyden1', 'linearmixing', 'root_scalar', 'fsolve', 'fmin_cg', 'minimize', 'brentq'):
            setattr(opt, n, self._stub_caller('scipy.optimize.' + n))
        e['scipy.optimize'] = opt
        from . import mpi
        e['mpi4py'] = self.comm_mod or mpi.module()
        e['mpi4py.MPI'] = e['mpi4py'].MPI
        e['scipy.interpolate'] = _mod('scipy.interpolate', interp1d=self._stub_caller('interp1d'))
        e['scipy.fftpack'] = _mod('scipy.fftpack')
        if self.symbolic:
            e['mpmath'] = _mod('mpmath', psi=lambda n, z: self._stub_caller('mpmath.psi')(n, z))

    def _stub_caller(self, name):
        def f(*a, **k):
            h = self.stubs.get(name)
            if h is None:
                if self.symbolic:
                    ctx().unsupported('call of %s' % name)
                return self._real_call(name, a, k)
            return h(*a, **k)
        f.__name__ = name.split('.')[-1]
        return f

    def _real_call(self, name, a, k):
        import importlib
        m, f = name.rsplit('.', 1) if '.' in name else ('scipy.interpolate', name)
        return getattr(importlib.import_module(m), f)(*a, **k)

    def _lapack(self, name):
        def f(*a, **k):
            h = self.stubs.get('lapack.' + name)
            if h is not None:
                return h(*a, **k)
            if self.symbolic:
                ctx().unsupported('LAPACK ' + name)
            from scipy.linalg.lapack import get_lapack_funcs
            return get_lapack_funcs(name, dtype=_np.float64)(*a, **k)
        return f

    # imports ----------------------------------------------------------------
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or 'edpyt'
            base = pkg.split('.')
            base = base[:len(base) - level + 1]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'numpy':
            if name == 'numpy':
                return self.np
            if name in self.ext and fromlist:
                return self.ext[name]
            if name.startswith('numpy.linalg'):
                return self.np.linalg if fromlist else self.np
            return _mod(name, **{n: getattr(self.np, n) for n in (fromlist or ()) if hasattr(_np, n)})
        if name == 'edpyt' and fromlist:
            pk = _mod('edpyt')
            for n in fromlist:
                setattr(pk, n, self.load('edpyt.' + n))
            return pk
        if top in ('edpyt', 'edpyt_backend'):
            m = self.load(name)
            if fromlist:
                return m
            return _mod(top)
        if name in self.ext:
            if fromlist or '.' not in name:
                return self.ext[name]
            return self.ext.get(top) or builtins.__import__(top)
        if name == 'scipy' and fromlist:
            out = _mod('scipy')
            import importlib
            for n in fromlist:
                out.__dict__[n] = self.ext.get('scipy.' + n) or importlib.import_module('scipy.' + n)
            return out
        if name == 'math':
            return self._math()
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _math(self):
        m = _mod('math')
        m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith('__')})
        if self.symbolic:
            for n in ('sqrt', 'exp', 'log'):
                def g(x, _n=n):
                    return getattr(x, _n)() if npx.is_sym(x) else getattr(math, _n)(x)
                setattr(m, n, g)
            m.fabs = abs
            m.isclose = lambda a, b, **k: bool(abs(a - b) <= 1e-9)
        return m

    def _builtins(self):
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['print'] = lambda *a, **k: self.prints.append(k.get('sep', ' ').join(
            x if isinstance(x, str) else repr(x) for x in a) + k.get('end', '\n'))
        b['open'] = _forbidden('open')
        b['exec'] = _forbidden('exec')
        b['eval'] = _forbidden('eval')
        b['input'] = _forbidden('input')
        if self.symbolic:
            class _Meta(type):
                def __instancecheck__(cls, x):
                    return isinstance(x, cls._real)

                def __eq__(cls, o):
                    return o is cls or o is cls._real

                def __hash__(cls):
                    return hash(cls._real)

            def fnew(cls, x=0.0):
                if isinstance(x, (R, Cx)):
                    return x
                if isinstance(x, (I, B)):
                    return core.as_r(x)
                return R(core.frac(float(x))) if not (isinstance(x, str) or math.isinf(float(x))
                                                      or math.isnan(float(x))) else float(x)

            def inew(cls, x=0, *a, **k):
                if isinstance(x, Quot):
                    return x.trunc()
                if isinstance(x, I):
                    return x
                if isinstance(x, B):
                    return x._i()
                return int(x, *a, **k)

            def cnew(cls, re=0, im=0):
                if npx.is_sym(re) or npx.is_sym(im):
                    return core.as_c(re) + core.as_c(im) * 1j
                return complex(re, im)
            b['float'] = _Meta('float', (), {'_real': float, '__new__': fnew,
                                             'dtype': _np.dtype(float)})
            b['complex'] = _Meta('complex', (), {'_real': complex, '__new__': cnew,
                                                 'dtype': _np.dtype(complex)})
            # int must stay a real type for dtype=int and range(); calls only
            # need interception for symbolic integers
            b['int'] = _Meta('int', (), {'_real': int, '__new__': inew, 'dtype': _np.dtype(int)})

            def mk(lo, real):
                def f(*a, **k):
                    if k or not a:
                        return real(*a, **k)
                    xs = list(a[0]) if len(a) == 1 else list(a)
                    if any(npx.is_sym(x) for x in xs):
                        return npx._minmax(_np.array(xs, object), None, lo)
                    return real(xs)
                return f
            b['min'], b['max'] = mk(True, min), mk(False, max)

            def all_(it):
                for x in it:
                    if not x:
                        return False
                return True
            b['all'] = all_
        return b

    def path(self, name):
        return os.path.join(REPO, *name.split('.')) + '.py'

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs and isinstance(self.stubs[name], types.ModuleType):
            return self.stubs[name]
        if name == 'edpyt':
            m = self.modules[name] = _mod('edpyt')
            return m
        if name in ('edpyt._psparse', 'edpyt._continued_fraction'):
            from . import pyx
            m = pyx.load(self, name)
            self.modules[name] = m
            return m
        p = self.path(name)
        if not os.path.exists(p):
            raise ImportError(name)
        with open(p) as f:
            src = f.read()
        self.sources[name] = src
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        try:
            exec(compile(src, p, 'exec', dont_inherit=True), m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        return m

    def __getattr__(self, n):
        # world.espace -> edpyt.espace
        if n.startswith('_'):
            raise AttributeError(n)
        return self.load('edpyt.' + n)


def _forbidden(name):
    def f(*a, **k):
        raise RuntimeError('code under test called %s()' % name)
    return f
