import ctypes as ct

from .common import *
from . import cback
from .cback import vec, cvec, cell, get, leaks, carr
from .c18 import o_delta, o_grad, o_chi2, o_dchi2

EXPLAIN = ('The C objective and gradient of the bath fit are interpreted from LLVM IR inside the real '
           'fit() (only the minimiser is replaced, by a stub that evaluates both callbacks at symbolic '
           'points in varying orders): values, absence of stale buffers, bounds, initialisation and '
           'release of memory are obligations. Concrete replays also call the natively built library.')
BOUNDS = {'quick': 'up to 3 bath sites, up to 4 frequencies, histories of up to 6 evaluations',
          'thorough': 'up to 4 bath sites, 6 frequencies'}
OUTSIDE = 'floating-point rounding; failing malloc'
STUBS = ['frprmn: evaluates the callbacks it is given (the real one is in C21)']
NATIVE = ['edpyt_backend/*.c (LLVM IR)']


def freqs(h, m, beta):
    pi = 3.14159265358979323846
    return [Cx(h.const(0), (2 * k + 1) * h.const(pi) / beta) if h.sym else 1j * (2 * k + 1) * pi / beta
            for k in range(m)]


def session(h):
    nb, nm, calls = h.param('nb'), h.param('m'), h.param('calls')
    n = 2 * nb
    beta = h.real('beta', 0.5, 40)
    F = h.carray('F', nm)
    F = F if h.sym else np.asarray(F, complex)
    P = [h.array('p%d' % i, n) for i in range(3)]
    x = h.array('x', n)
    F0, x0, P0 = F.copy(), x.copy(), [p.copy() for p in P]
    new = h.array('new', n)
    z = freqs(h, nm, beta)
    m = cback.machine(h, 'fit', 'frprmn')
    seen = []
    tol = None if h.sym else 1e-7

    def frprmn(p, k, ftol, it, fret, func, dfunc):
        seen.append(1)
        h.ok(int(k) == n, 'number of parameters')
        h.eq(cback.read(h, p, n), x0, 'starts from the parameters given')
        for what, i in calls:
            q = P[i].copy()
            if what == 'f':
                h.eq(m.call(func[1], vec(q)), o_chi2(P0[i], z, F0), 'distance of the fit')
            else:
                out = cback.fresh(h, n)
                m.call(dfunc[1], vec(q), out)
                h.eq(cback.read(h, out, n), o_dchi2(P0[i], z, F0), 'gradient of the distance')
            h.eq(q, P0[i], 'evaluation leaves the parameters unchanged')
        for i in range(n):
            p.mem.store(p.off + 8 * i, new[i], 8)
        it.mem.store(it.off, 7, 4)
        fret.mem.store(fret.off, h.const(3) if h.sym else 3., 8)
    m.natives['frprmn'] = frprmn
    it, fret = cell(m, nbytes=4), cell(m)
    m.call('fit', vec(x), it, fret, nb, nm, cvec(F), beta)
    h.ok(len(seen) == 1, 'one minimisation')
    h.eq(x, new, 'result stored in place')
    h.ok(int(get(it, 4)) == 7, 'iteration count handed back')
    h.eq(get(fret), h.const(3) if h.sym else 3., 'final value handed back')
    h.eq(F, F0, 'target unchanged')
    h.ok(not leaks(m), 'all memory released')
    if not h.sym:
        native(h, nb, nm, F0, P0, z)


def native(h, nb, nm, F, P, z):
    """The natively compiled objective and gradient."""
    L = cback.lib()
    if L is None:
        return
    try:
        ct.c_int.in_dll(L, 'nbath').value = nb
        ct.c_int.in_dll(L, 'nmats').value = nm
        za, Fa, d = np.array(z, complex), np.array(F, complex), np.empty(nm, complex)
        rows = [np.empty(2 * nb, complex) for _ in range(nm)]
        tab = (ct.c_void_p * nm)(*[r.ctypes.data for r in rows])
        for nme, v in (('z', za.ctypes.data), ('vals_true', Fa.ctypes.data), ('delta', d.ctypes.data),
                       ('ddelta', ct.addressof(tab))):
            ct.c_void_p.in_dll(L, nme).value = v
        L.eval_chi2.restype = ct.c_double
    except (ValueError, AttributeError):
        return
    for p in P:
        q = np.array(p, float)
        h.eq(L.eval_chi2(ct.c_void_p(q.ctypes.data)), o_chi2(p, z, F), 'compiled distance')
        g = np.full(2 * nb, np.nan)
        L.eval_dchi2(ct.c_void_p(q.ctypes.data), ct.c_void_p(g.ctypes.data))
        h.eq(g, o_dchi2(p, z, F), 'compiled gradient')


def instances(tier):
    q = tier == 'quick'
    kw = dict(abstract_mul=True, abstract_recip=True, timeout=60 if q else 600)
    H = ['f0 g0 f1 g1 f0 g2', 'g0 f1 g0 g1 f1 f2', 'f0 f1 g2 g2 f0 g1']
    for nb, m in [(1, 1), (1, 3), (2, 2), (3, 2), (2, 4)] + ([] if q else [(3, 4), (4, 3), (2, 6)]):
        for i, s in enumerate(H):
            calls = [(c[0], int(c[1])) for c in s.split()]
            yield Inst('session%d_b%d_m%d' % (i, nb, m), session, dict(nb=nb, m=m, calls=calls), **kw)
