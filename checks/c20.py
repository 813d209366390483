import ctypes
import types

from .common import *
from . import cback
from .cback import vec, leaks

EXPLAIN = ('The C initial bath is interpreted from LLVM IR into memory without contents, with a symbolic '
           'bandwidth, and must define every parameter and equal the Python initial bath (whose own '
           'specification is C18). The Python wrappers of the C fit run with a model of ctypes/cffi: '
           'the solver must receive defined start parameters, the target in the expected layout and '
           'matching sizes, and its result must come back.')
BOUNDS = {'quick': '1..16, 100, 101, 128 and 145 bath sites, every bandwidth; wrappers: up to 4 bath sites, 4 frequencies, '
                   'contiguous, strided and single-precision targets',
          'thorough': '1..64, 100, 101, 128 and 145 bath sites'}
OUTSIDE = 'the compiled library itself (C19, C21)'
STUBS = ['ctypes.CDLL / cffi library: records the call, returns free results']
NATIVE = ['edpyt_backend/bath.c (LLVM IR)']


def initial(h):
    nb = h.param('nb')
    m = cback.machine(h, 'init_bath')
    bw = h.real('bw', 0.01, 50)
    if 'BANDWIDTH' not in m.gl:
        bw = h.const(2) if h.sym else 2.
    else:
        m.gl['BANDWIDTH'].store(0, bw, 8)
    m.gl['nbath'].store(0, nb, 4)
    x = cback.fresh(h, 2 * nb)
    m.call('init_bath', x)
    got = []
    for i in range(2 * nb):
        try:
            got.append(x.mem.load(8 * i, 8))
        except cback.MemFault:
            h.ok(False, 'every parameter is set')
            return
    def none(*a, **k):
        raise AssertionError('not called')
    w = h.new_world(stubs={'scipy.optimize.fmin_cg': none})
    p = w.fit_cg.get_initial_bath(nbath=nb, bandwidth=bw)
    for a, b in zip(got, p):
        h.ok(abs(a - b) <= (h.const(1e-9) if h.sym else 1e-9), 'same bath as the Python implementation')
    h.ok(not leaks(m), 'all memory released')


class Lib:
    """What a loaded shared library looks like to ctypes users."""

    def __init__(self, **fs):
        self.__dict__.update(fs)
        self._glob = {}


class Fn:
    def __init__(self, f):
        self.f, self.restype, self.argtypes = f, None, None

    def __call__(self, *a):
        for t, x in zip(self.argtypes or (), a):
            if hasattr(t, 'from_param') and isinstance(x, np.ndarray) and x.dtype != object:
                t.from_param(x)
        return self.f(*a)


class Num:
    def __init__(self, v=0):
        self.value = v


def num(x):
    return x.value if hasattr(x, 'value') else x


def wrapper(h):
    """edpyt_backend.fit_wrap.fit_hybrid"""
    nb, nm, kind = h.param('nb'), h.param('m'), h.param('kind')
    beta = h.real('beta', 0.5, 40)
    F = h.carray('F', 2 * nm if kind == 'strided' else nm)
    F = F if h.sym else np.asarray(F, complex)
    D = F[::2] if kind == 'strided' else F
    new = h.array('new', 2 * nb)
    start = h.array('start', 2 * nb)
    glob, calls = {}, []

    def init_bath(x):
        h.ok(int(num(glob.get('nbath', -1))) == nb, 'number of bath sites announced to the library')
        x[:] = start
        glob['init'] = 1

    def fit(x, it, fret, nbath, nmats, d, b):
        calls.append(1)
        h.ok(int(num(nbath)) == nb and int(num(nmats)) == nm, 'sizes')
        h.ok(np.shape(x) == (2 * nb,) and x.flags['C_CONTIGUOUS'], 'parameter array')
        h.ok(np.shape(d) == (nm,) and d.flags['C_CONTIGUOUS'], 'contiguous target')
        h.eq(d, D, 'target handed over')
        h.eq(num(b), beta, 'inverse temperature')
        if glob.get('init'):
            h.eq(x, start, 'starts from the initial bath')
        elif h.sym:
            h.ok(not any('uninit' in str(core.as_r(v).t) for v in x), 'starts from defined parameters')
        else:
            w2 = h.new_world(stubs={'scipy.optimize.fmin_cg': None})
            h.eq(x, w2.fit_cg.get_initial_bath(nbath=nb), 'starts from defined parameters')
        x[:] = new
    lib = Lib(fit=Fn(fit), init_bath=Fn(init_bath))

    def typ(name):
        T = type(name, (Num,), {})
        T.in_dll = classmethod(lambda c, l, n: glob.setdefault(n, c()))
        return T
    ct = types.ModuleType('ctypes')
    ct.__dict__.update({k: v for k, v in ctypes.__dict__.items() if not k.startswith('__')})
    ct.CDLL = ct.cdll = lambda *a, **k: lib
    ct.c_int, ct.c_double = typ('c_int'), typ('c_double')
    ct.POINTER = lambda t: types.SimpleNamespace(t=t)
    ct.byref = lambda x, *a: x
    w = h.new_world()
    w.ext['ctypes'] = ct
    nc = types.ModuleType('numpy.ctypeslib')
    nc.ndpointer = lambda *a, **k: types.SimpleNamespace()
    w.ext['numpy.ctypeslib'] = nc
    w.np.ctypeslib = nc
    r = w.load('edpyt_backend.fit_wrap').fit_hybrid(nb, nm, D, beta)
    h.ok(len(calls) == 1, 'one fit')
    h.eq(r, new, 'parameters found are returned')


def cffi(h):
    """edpyt.fit_cffi.fit_hybrid"""
    nb, nm = h.param('nb'), h.param('m')
    beta = h.real('beta', 0.5, 40)
    fret = h.real('fret')
    # pointers are compared by the memory they address: distinct numbers as data
    x = np.array([3.25 + i for i in range(2 * nb)])
    D = np.array([.5 * i - 2.75j * (i + 1) for i in range(nm)])
    x0, D0, new = x.copy(), D.copy(), [-7.5 - i for i in range(2 * nb)]
    keep, calls = [], []

    def ptr(t, p):
        p = getattr(p, 'addr', p)
        return types.SimpleNamespace(ctype=t.replace(' ', ''), addr=int(p))

    def from_buffer(*a):
        t, o = a if len(a) == 2 else ('char[]', a[0])
        o = np.asarray(o)
        if not o.flags['C_CONTIGUOUS']:
            raise ValueError('ndarray is not C-contiguous')
        keep.append(o)
        return ptr(t, o.ctypes.data)

    def fit(px, it, f, nbath, nmats, d, b):
        calls.append(1)
        h.ok(px.ctype in ('double*', 'double[]') and d.ctype in ('double_Complex*', 'double_Complex[]'),
             'pointer types')
        h.ok(int(nbath) == nb and int(nmats) == nm, 'sizes')
        vx = (ctypes.c_double * (2 * nb)).from_address(px.addr)
        vd = (ctypes.c_double * (2 * nm)).from_address(d.addr)
        h.ok(list(vx) == x0.tolist(), 'parameters handed over')
        h.ok(list(vd) == D0.view(float).tolist(), 'target handed over')
        h.eq(b, beta, 'inverse temperature')
        for i in range(2 * nb):
            vx[i] = new[i]
        it[0], f[0] = 5, fret
    mod = types.ModuleType('edpyt_backend._fit')
    mod.lib = types.SimpleNamespace(fit=fit)
    mod.ffi = types.SimpleNamespace(new=lambda t, *a: list(a[:1]) or [0], cast=ptr, from_buffer=from_buffer)
    w = h.new_world(stubs={'edpyt_backend._fit': mod})
    r = w.load('edpyt.fit_cffi').fit_hybrid(x, nm, D, beta)
    h.ok(len(calls) == 1, 'one fit')
    h.ok(x.tolist() == new, 'parameters found are left in the array')
    h.ok(int(r[0]) == 5, 'iteration count returned')
    h.eq(r[1], fret, 'final value returned')


def instances(tier):
    q = tier == 'quick'
    for nb in [*range(1, 17 if q else 65), 100, 101, 128, 145]:
        yield Inst('initial_%d' % nb, initial, dict(nb=nb), timeout=60)
    for nb in (1, 2, 4):
        for kind in ('plain', 'strided'):
            yield Inst('wrapper_%s_%d' % (kind, nb), wrapper, dict(nb=nb, m=nb + 1, kind=kind), timeout=60)
    yield Inst('cffi', cffi, dict(nb=2, m=3), timeout=60)
