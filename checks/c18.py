from .common import *

EXPLAIN = ('The compiled kernels of the fit (run from their source), the objective and its gradient are '
           'executed on symbolic bath parameters, frequencies and target values, in arbitrary call '
           'histories through the shared work buffers; the minimiser is replaced by a stub that '
           'evaluates both functions at symbolic points and returns a symbolic result.')
BOUNDS = {'quick': 'up to 3 bath sites, up to 3 frequencies, histories of 6 calls; initial baths of '
                   '2..13 sites with symbolic bandwidth',
          'thorough': 'up to 4 bath sites, 4 frequencies; initial baths up to 40 sites'}
OUTSIDE = 'convergence of the minimiser'
STUBS = ['scipy.optimize.fmin_cg: evaluates objective and gradient, returns a free vector']


def data(h, nb, m, tag=''):
    e, eta = h.array('w', m), h.array('eta', m, lo=0.1, hi=3)
    z = h.wrap(np.array([Cx(x, y) if h.sym else complex(x, y) for x, y in zip(e, eta)], object))
    return (z if h.sym else np.asarray(z, complex)), h.carray('F', m)


def o_delta(p, z):
    n = len(p) // 2
    out = []
    for x in z:
        t = 0
        for j in range(n):
            t = t + p[n + j] * p[n + j] / (x - p[j])
        out.append(t)
    return out


def o_grad(p, z):
    """d Delta(z_i) / d p_j from the definition."""
    n = len(p) // 2
    out = []
    for x in z:
        row = []
        for j in range(n):
            r = x - p[j]
            row.append(p[n + j] * p[n + j] / r ** 2)
        for j in range(n):
            row.append(2 * p[n + j] / (x - p[j]))
        out.append(row)
    return out


def o_chi2(p, z, F):
    t = 0
    for x, f in zip(o_delta(p, z), F):
        d = x - f
        t = t + d.real * d.real + d.imag * d.imag
    return t / len(F)


def o_dchi2(p, z, F):
    D, G = o_delta(p, z), o_grad(p, z)
    out = []
    for j in range(len(p)):
        t = 0
        for i in range(len(F)):
            d = D[i] - F[i]
            t = t + d.real * G[i][j].real + d.imag * G[i][j].imag
        out.append(2 * t / len(F))
    return out


def load(h, fmin=None):
    def none(*a, **k):
        raise AssertionError('not called')
    return h.new_world(stubs={'scipy.optimize.fmin_cg': fmin or none}).fit_cg


def kernels(h):
    nb, m = h.param('nb'), h.param('m')
    fc = load(h)
    z, F = data(h, nb, m)
    p = h.array('p', 2 * nb)
    p0, z0 = p.copy(), z.copy()
    h.eq(fc.Delta(z)(p), o_delta(p, z), 'hybridisation of the bath')
    h.eq(fc.DDelta(z, 2 * nb)(p), o_grad(p, z), 'derivative of the hybridisation')
    h.eq(p, p0, 'parameters unchanged')
    h.eq(z, z0, 'frequencies unchanged')


def history(h):
    nb, m, calls = h.param('nb'), h.param('m'), h.param('calls')
    fc = load(h)
    z, F = data(h, nb, m)
    P = [h.array('p%d' % i, 2 * nb) for i in range(3)]
    F0 = F.copy()
    delta = fc.Delta(z)
    chi2, dchi2 = fc.Chi2(delta, F), fc.dChi2(delta, fc.DDelta(z, 2 * nb), F)
    for k, (what, i) in enumerate(calls):
        if what == 'f':
            h.eq(chi2(P[i]), o_chi2(P[i], z, F), 'distance of the fit')
        else:
            h.eq(dchi2(P[i]), o_dchi2(P[i], z, F), 'gradient of the distance')
    h.eq(F, F0, 'target unchanged')


def fit(h):
    nb, m = h.param('nb'), h.param('m')
    beta = h.real('beta', 0.5, 50)
    F = h.carray('F', m)
    p = h.array('p', 2 * nb)
    p0, F0 = p.copy(), F.copy()
    new, at = h.array('r', 2 * nb), h.array('q', 2 * nb)
    z = [Cx(h.const(0), (2 * k + 1) * np.pi / beta) if h.sym else 1j * (2 * k + 1) * np.pi / beta for k in range(m)]
    seen = []

    def fmin(f, x0, fprime=None, **k):
        seen.append(1)
        h.eq(x0, p0, 'starts from the parameters given')
        h.ok(fprime is not None, 'the gradient is handed to the minimiser')
        a1, g1 = f(at), fprime(at)
        h.eq(a1, o_chi2(at, z, F), 'objective of the fit')
        h.eq(g1, o_dchi2(at, z, F), 'gradient of the fit')
        h.ok(not k.get('full_output') and not k.get('retall'), 'plain result')
        return new.copy()
    fc = load(h, fmin)
    fc.fit_hybrid(p, m, F, beta)
    h.ok(len(seen) == 1, 'one minimisation')
    h.eq(p, new, 'result stored in place')
    h.eq(F, F0, 'target unchanged')


def initial(h):
    nb, mode = h.param('nb'), h.param('mode')
    half = nb // 2
    bw = h.real('bw', 0.01, 50)
    h.assume(bw * 10 > max(1, half - 1))
    fc = load(h)
    if mode == 'p':
        p = h.array('old', 2 * nb)
        r = fc.get_initial_bath(p=p, bandwidth=bw)
        h.ok(r is p, 'the array given is filled')
    elif mode == 'default':
        if half > 20:
            return
        bw = h.const(2)
        r = fc.get_initial_bath(nbath=nb)
    else:
        r = fc.get_initial_bath(nbath=nb, bandwidth=bw)
    h.ok(np.shape(r) == (2 * nb,), 'energies and hoppings')
    e, v = list(r[:nb]), list(r[nb:])
    for x in v:
        h.ok(abs(x - h.const(max(0.1, nb ** -.5))) < h.const(1e-12), 'hoppings')
    if nb == 1:
        return
    h.eq(e[0], -bw, 'lowest energy')
    h.eq(e[-1], bw, 'highest energy')
    for x, y in zip(e, e[1:]):
        h.ok(x < y, 'strictly ascending')
    for i in range(nb):
        h.eq(e[i] + e[nb - 1 - i], h.const(0), 'symmetric about zero')


def refuse(h):
    fc = load(h)
    h.raises(ValueError, lambda: fc.get_initial_bath(p=h.array('p', 4), nbath=2), 'conflicting arguments')


def instances(tier):
    q = tier == 'quick'
    kw = dict(abstract_mul=True, abstract_recip=True, timeout=40 if q else 400)
    sizes = [(1, 1), (1, 3), (2, 2), (3, 3)] + ([] if q else [(4, 4), (6, 3)])
    for nb, m in sizes:
        yield Inst('kernels_b%d_m%d' % (nb, m), kernels, dict(nb=nb, m=m), **kw)
    H = ['f0 g0 f1 g1 f0 g2', 'g0 f1 g0 g1 f1 f2', 'f0 f1 g2 g2 f0 g1']
    for nb, m in sizes[:3] if q else sizes:
        for i, s in enumerate(H):
            calls = [(c[0], int(c[1])) for c in s.split()]
            yield Inst('history%d_b%d_m%d' % (i, nb, m), history, dict(nb=nb, m=m, calls=calls), **kw)
    for nb, m in ((1, 1), (1, 2), (2, 2)) + (() if q else ((3, 3), (4, 4))):
        yield Inst('fit_b%d_m%d' % (nb, m), fit, dict(nb=nb, m=m), **kw)
    for nb in range(1, 14 if q else 41):
        for mode in ('p', 'n', 'default'):
            yield Inst('initial_%s%d' % (mode, nb), initial, dict(nb=nb, mode=mode), timeout=30)
    yield Inst('refuse', refuse, {})
