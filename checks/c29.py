import types

from .common import *
from .c11 import h_exp, recip

EXPLAIN = ('The poles and residues of the Fermi function are compared with its continued fraction for '
           'all real arguments; the contour integral and the Matsubara sum with tail correction run on '
           'free Green function values, chemical potentials and temperatures and must equal the sum '
           'over exactly these poles and frequencies.')
BOUNDS = {'quick': 'Fermi function: up to 4 poles, |x| <= 60; integrals: up to 3 poles, 3 frequencies, '
                   'scalar and array chemical potentials, orbitals and spins',
          'thorough': 'Fermi function: up to 7 poles; integrals: up to 4 poles, 4 frequencies'}
OUTSIDE = 'how well that many poles or frequencies approximate the integral; eigensolver accuracy beyond 1e-9'
STUBS = ['scipy.linalg.eigh: numeric on constants']


def lin(h, w):
    import scipy.linalg as sl
    if not h.sym:
        return w
    from symx import npx

    def eigh(a, b=None, **k):
        f = lambda m: None if m is None else np.array([[float(x) for x in r] for r in m])
        e, v = sl.eigh(f(a), f(b), **k)
        return npx.lift(e), npx.lift(v)
    m = types.ModuleType('scipy.linalg')
    m.eigh = eigh
    w.ext['scipy.linalg'] = m
    return w


def fermi(h):
    N = h.param('N')
    w = lin(h, h.new_world())
    zp, Rp = w.integrate_gf.zero_fermi(N)
    h.ok(len(zp) == N and len(Rp) == N, 'one residue per pole')
    for i in range(N):
        h.ok(zp[i] > 0, 'poles in the upper half plane')
        if i:
            h.ok(zp[i] > zp[i - 1], 'ascending poles')
    x = h.real('x', -60, 60)
    # 1/2 + 2 sum R x/(z^2+x^2) = 1/2 - 1/2 tanh(x/2), tanh as a continued fraction of 2N levels
    q = [zp[i] * zp[i] + x * x for i in range(N)]
    num, den = 0, 1
    for i in range(N):
        t = Rp[i] * x * 2
        for j in range(N):
            if j != i:
                t = t * q[j]
        num, den = num + t, den * q[i]
    y = x / 2
    a, b = h.const(0), h.const(1)          # cf = a/b
    for k in range(2 * N, 0, -1):
        # y^2/((2k-1) + a/b)
        a, b = y * y * b, (2 * k - 1) * b + a
    # tanh = a/(b y)
    d = num * 2 * b * y + a * den
    s = den * b * y
    if h.param('neg'):
        h.assume(x < -0.001)
        s = -s
    else:
        h.assume(x > 0.001)
    eps = h.const(Fraction(1, 10**8))
    h.ok(d <= eps * s, 'Fermi function')
    h.ok(d >= -eps * s, 'Fermi function')


def _same(a, b):
    d = a - b
    if not isinstance(d, R):
        return abs(d) < 1e-9
    import z3
    return d.is_const and d.n == 0 or (not d.is_const and z3.is_true(z3.simplify(core.bterm(d == 0))))


def kB():
    from scipy.constants import e, k
    return k / e


def contour(h):
    nz, shape, arr = h.param('nz'), h.param('shape'), h.param('arr')
    w = lin(h, h.new_world())
    m = w.integrate_gf
    zp, Rp = h.array('zp', nz, lo=0.5, hi=90), h.array('Rp', nz)
    m.zero_fermi = lambda n: (zp.copy(), Rp.copy())
    T, R_ = h.real('T', 10, 1000), h.real('R', 100, 10**6)
    mu = h.array('mu', arr) if arr else h.real('mu')
    # a Green function that is a different free value at every argument asked
    asked = []
    cells = arr or 1

    def val(k, c):
        return h.cplx('g%d_%d' % (k, c))
    def gf(z):
        asked.append(z)
        k = len(asked) - 1
        if shape == 'scalar':
            return val(k, 0)
        return h.wrap(np.array([val(k, c) for c in range(cells if arr else 2)], object)) if h.sym else \
            np.array([val(k, c) for c in range(cells if arr else 2)])
    kw = {}
    default = h.param('defaults')
    if not default:
        kw = dict(T=T, R=R_)
    else:
        T, R_ = 300, 10**10
    got = m.integrate_gf(gf, mu, nzp=nz, **kw)
    beta = 1 / (kB() * T)
    h.ok(len(asked) == nz + 1, 'one evaluation per pole and one far away')
    # order free: find the far one and the pole of every evaluation
    far = [k for k, z in enumerate(asked) if not np.ndim(z) and bool(z.imag > 99)]
    h.ok(len(far) == 1, 'one evaluation far away')
    far = far[0]
    h.eq(asked[far].real, h.const(0), 'far up the imaginary axis')
    h.eq(asked[far].imag, R_, 'at the radius asked for')
    rest = [k for k in range(len(asked)) if k != far]
    order = []
    for k in rest:
        z = asked[k]
        zi = (z[0] if np.ndim(z) else z).imag
        i = [i for i in range(nz) if i not in order and _same(zi, zp[i] / beta)]
        order.append(i[0] if i else [i for i in range(nz) if i not in order][0])
        i = order[-1]
        zz = list(z) if np.ndim(z) else [z]
        mm = list(mu) if arr else [mu]
        h.ok(len(zz) == len(mm), 'one argument per chemical potential')
        for a, b in zip(zz, mm):
            h.eq(a.real, b, 'poles above the chemical potential')
            h.eq(a.imag, zp[i] / beta, 'at the poles')
    n = 1 if shape == 'scalar' else cells if arr else 2
    out = []
    for c in range(n):
        t = -R_ * val(far, c).imag         # Re(i R g)
        for i, k in zip(order, rest):
            t = t - 4 / beta * (val(k, c).real * Rp[i])
        out.append(t / 2)
    h.eq(got, out[0] if shape == 'scalar' else out, 'charge')


def o_matsum(h, beta, gz):
    """gz: values at the nmats frequencies of one orbital."""
    n = len(gz)
    w2 = [((2 * j + 1) * np.pi / beta) ** 2 for j in range(n)]
    a = -gz[-1].real * w2[-1]
    s = 0
    for j in range(n):
        # G - 1/(i w - a), real part
        s = s + gz[j].real + a * recip(a * a + w2[j])
    return 2 * s / beta + 1 - recip(1 + h_exp(h, -beta * a))


def matsum(h):
    n, shape = h.param('n'), h.param('shape')
    w = lin(h, h.new_world())
    beta, mu, old = h.real('beta', 0.5, 50), h.real('mu'), h.real('old')
    G = h.carray('G', int(np.prod(shape)) * n).reshape(tuple(shape) + (n,))
    seen = []

    class Gf:
        mu = old

        def __call__(self, z):
            seen.append((self.mu, z))
            return h.wrap(G.copy())
    g = Gf()
    kw = dict(nmats=n, beta=beta)
    got = w.integrate_gf.matsum_gf(g, mu, **kw)
    for m_, z in seen:
        h.eq(m_, mu, 'evaluated at the chemical potential asked for')
        h.eq(z, [Cx(h.const(0), (2 * j + 1) * np.pi / beta) if h.sym else 1j * (2 * j + 1) * np.pi / beta
                 for j in range(n)], 'Matsubara frequencies')
    h.eq(g.mu, old, 'chemical potential restored')
    h.ok(np.shape(got) == tuple(shape), 'one occupation per orbital')
    for ix in np.ndindex(*shape):
        h.eq(got[ix], o_matsum(h, beta, list(G[ix])), 'Matsubara sum with tail')


def tail(h):
    """The Matsubara sum of a single level is its Fermi occupation when the tail is exact (one frequency
    of a level at zero), and the tail correction vanishes for it."""
    w = lin(h, h.new_world())
    beta, n = h.real('beta', 0.5, 50), h.param('n')

    class Gf:
        mu = h.const(0)

        def __call__(self, z):
            return h.wrap(np.array([[1 / x for x in z]], object)) if h.sym else np.array([1 / z])
    got = w.integrate_gf.matsum_gf(Gf(), h.const(0), nmats=n, beta=beta)
    h.eq(got[0], h.const(Fraction(1, 2)) if h.sym else 0.5, 'half filling of a level at the Fermi energy')


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul=True, abstract_recip=True, timeout=60 if q else 400)
    for N in (1, 2, 3, 4) if q else range(1, 8):
        for neg in (0, 1):
            yield Inst('fermi_%d_%d' % (N, neg), fermi, dict(N=N, neg=neg), timeout=100 if q else 600)
    for nz in (1, 2, 3) + (() if q else (4,)):
        for shape in ('scalar', 'vector'):
            yield Inst('contour_n%d_%s' % (nz, shape), contour,
                       dict(nz=nz, shape=shape, arr=0, defaults=nz == 2), **ab)
        yield Inst('contour_n%d_array' % nz, contour, dict(nz=nz, shape='array', arr=2, defaults=0), **ab)
    for n in (1, 2, 3) + (() if q else (4,)):
        for shape in ((1,), (2,), (2, 2)):
            yield Inst('matsum_n%d_%s' % (n, 'x'.join(map(str, shape))), matsum, dict(n=n, shape=shape), **ab)
        yield Inst('tail_n%d' % n, tail, dict(n=n), **ab)
