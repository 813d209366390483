import types
from fractions import Fraction
from .common import *
from .c11 import h_exp, recip
from .c15 import number
from .c26 import freqs
from .c28 import inv_diag

EXPLAIN = ('The distributional exact diagonalisation runs on symbolic poles, densities, random numbers, '
           'eigenspaces and Green functions: the sampler, the rational fit of the non-interacting Green '
           'function, the Anderson-model matrices, occupations, entropy and the averages over every '
           'pattern of accepted and rejected realisations are compared with their definitions; the smoothing of the '
           'self-energy is compared with the low-pass filter of its two parts.')
BOUNDS = {'quick': 'sampler grids of up to 5 points, up to 3 poles per sample; up to 4 levels per impurity, 3 impurities; '
                   'averages of 1 to 3 realisations with up to 2 rejections; eigenspaces of up to 3 sites; '
                   'smoothing meshes of up to 4 points, five cutoffs',
          'thorough': 'grids of 7 points, 4 realisations'}
OUTSIDE = 'distribution of the random generator; accuracy of fsolve and of the many-body diagonalisation; FFT lengths other than 1, 2 and 4'
STUBS = ['scipy.fftpack, scipy.interpolate.interp1d: exact discrete Fourier transform and linear interpolation',
         'scipy.optimize.fsolve: returns a root between the two poles',
         'build_espace, build_gf_exact, build_gf_lanczos inside the averaging loop: free results',
         'rng: free numbers in [0,1)']


def no(*a, **k):
    raise AssertionError('not expected')


def lib(h, **stubs):
    w = h.new_world(stubs=dict({'scipy.optimize.fsolve': no}, **stubs))
    return w, getattr(w, h.param('lib'))


class RS:
    def __init__(self, p):
        self.poles = p

    def __call__(self):
        pass


class Bath:
    def __init__(self, e0, ek, vk2):
        self.e0, self.ek, self.vk2 = e0, ek, vk2


def sorted_poles(h, n, tag='p'):
    p = h.array(tag, n, lo=-5, hi=5)
    for i in range(n - 1):
        h.assume(p[i + 1] - p[i] > 0.01)
    return p


def sqrt(h, x):
    return x.sqrt() if hasattr(x, 'sqrt') else math.sqrt(x)


# -- matrices --------------------------------------------------------------
def bath(h, tag, nb):
    return Bath(h.real('e0' + tag), h.array('ek' + tag, nb), h.array('v' + tag, nb, lo=0.0, hi=10))


def star(h, n, parts, nimp):
    M = np.empty((n, n), object)
    M[...] = h.const(0)
    nb = (n - nimp) // nimp
    for i, b in enumerate(parts):
        M[i, i] = b.e0
        for k in range(nb):
            r = nimp + i * nb + k
            M[r, r] = b.ek[k]
            M[i, r] = M[r, i] = -sqrt(h, b.vk2[k])
    return M


def siam(h):
    nb = h.param('nb')
    w, d = lib(h)
    n = nb + 1
    H = h.wrap(np.array([[h.const(0)] * n] * n, object)) if h.sym else np.zeros((n, n))
    V = H.copy()
    dev = h.param('lib') == 'dedlib_dev'
    for r in range(2):                  # the matrices are reused
        b = bath(h, str(r), nb)
        U = h.real('U%d' % r)
        if dev:
            d.build_siam(H, b)
        else:
            d.build_siam(H, V, U, b)
            W = np.empty((n, n), object)
            W[...] = h.const(0)
            W[0, 0] = U
            h.eq(V, W, 'only the impurity interacts')
        h.eq(H, star(h, n, [b], 1), 'Anderson model')
        H[0, 0] -= h.real('s%d' % r)
    if nb <= 2:                         # the hybridisation of the matrix is the one of the fit
        d.build_siam(H, b) if dev else d.build_siam(H, V, U, b)
        g = d.Gfimp(n)
        g.e0, g.ek, g.vk2 = b.e0, b.ek, b.vk2
        z = freqs(h, 1)
        M = [[(z[0] if a == c else 0) - H[a, c] for c in range(n)] for a in range(n)]
        got = g(z)[0]
        det = M[0][0]
        for k in range(nb):
            det = det - b.vk2[k] * recip(z[0] - b.ek[k])
        h.eq(got, recip(det), 'Green function of the fit')
        for k in range(nb):
            h.eq(M[0][k + 1] * M[k + 1][0], b.vk2[k], 'couplings squared')


def moam(h):
    k, nb = h.param('k'), h.param('nb')
    w, d = lib(h)
    n = k * (nb + 1)
    H = h.wrap(np.array([[h.const(0)] * n] * n, object)) if h.sym else np.zeros((n, n))
    for r in range(2):
        parts = [bath(h, '%d_%d' % (r, i), nb) for i in range(k)]
        d.build_moam(H, parts)
        h.eq(H, star(h, n, parts, k), 'multi-orbital Anderson model')
        H.flat[:k * (n + 1):n + 1] -= h.real('s%d' % r)


# -- sampling and fit -------------------------------------------------------
def sampler(h):
    m, n = h.param('m'), h.param('n')
    w, d = lib(h)
    p = h.array('p', m, lo=0.0, hi=10)
    tot = 0
    for v in p:
        tot = tot + v
    h.assume(tot > 0.01)
    lo = h.inst.params.get('lo', -1.0)
    at = []

    def dens(e):
        at.append(e)
        return p.copy()
    us = [h.real('u%d_%d' % (i, j), 0, 1) for i in range(2) for j in range(n)]
    for u in us:
        h.assume(u < 1)
    q = list(us)

    class Rng:
        def random(self):
            return q.pop(0)
    rs = d.RandomSampler(dens, [lo, lo + 2], n, Rng(), nsamples=(m - 1) / 2)
    grid = [lo + 2 * j / (m - 1) for j in range(m)]
    h.ok(len(at) == 1 and len(at[0]) == m, 'density on the grid')
    h.ok(all(abs(float(a) - b) < 1e-9 for a, b in zip(at[0], grid)), 'grid over the limits')
    acc = 0
    cum = []
    for v in p:
        acc = acc + v
        cum.append(acc)
    for j in range(m):
        h.eq(rs.cdf[j] * tot, cum[j], 'cumulative distribution')
    g = d.Gf0(rs)
    for i in range(2):
        if i:
            g.sample()
        else:
            rs()
        got = [float(x) for x in g.poles]
        h.ok(got == [float(x) for x in rs.poles], 'the Green function has the sampled poles')
        h.ok(all(a <= b for a, b in zip(got, got[1:])), 'sorted poles')
        want = []
        for u in us[i * n:(i + 1) * n]:
            for j in range(m):
                if bool(u * tot <= cum[j]):
                    want.append(grid[j])
                    break
        if not h.sym and len(want) < n:
            return
        h.ok(len(want) == n and all(abs(a - b) < 1e-9 for a, b in zip(sorted(want), got)),
             'inverse of the cumulative distribution')
    h.ok(not q, 'one random number per pole')


def gf0(h):
    n, m = h.param('n'), h.param('m')
    w, d = lib(h)
    p = h.array('p', n, lo=-5, hi=5)
    g = d.Gf0(RS(p))
    z = freqs(h, m)
    want = []
    for x in z:
        t = 0
        for a in p:
            t = t + recip(x - a)
        want.append(t / n)
    h.eq(g(z), want, 'Green function')
    x = h.real('x', *h.param('side'))
    t = 0
    for a in p:
        t = t - recip(x - a) * recip(x - a)
    h.eq(g.derivative(x), t / n, 'derivative')


def fit(h):
    n = h.param('n')
    roots = []

    def fsolve(f, x0, *a, **k):
        i = len(roots)
        h.eq(x0, (p[i] + p[i + 1]) / 2, 'starts between the poles')
        h.ok(getattr(f, '__self__', f) is g, 'root of the Green function')
        e = h.real('e%d' % i)
        h.assume(e - p[i] > 0.001)
        h.assume(p[i + 1] - e > 0.001)
        roots.append(e)
        return h.wrap(np.array([e], object)) if h.sym else np.array([e])
    w, d = lib(h, **{'scipy.optimize.fsolve': fsolve})
    p = sorted_poles(h, n)
    g = d.Gf0(RS(p))
    f = d.Gfimp(n)
    for _ in range(2):                  # a fit replaces the previous one
        roots.clear()
        f.fit(g)
    h.ok(len(roots) == n - 1, 'one bath level between two poles')
    h.eq(f.ek, roots, 'bath energies')
    for i, e in enumerate(roots):
        t = 0
        for a in p:
            t = t + recip(e - a) * recip(e - a)
        h.eq(f.vk2[i], recip(t / n), 'couplings')
    t = 0
    for a in p:
        t = t + a
    h.eq(f.e0, t / n, 'level')


def fit_exact(h):
    """At the true roots the fitted Anderson model has the sampled Green function."""
    n = h.param('n')
    s, t = h.real('s', -2, 2), h.real('t', 0.1, 3)
    if n == 2:
        p, e = [s, s + t], [s + t / 2]
    else:
        q = Fraction(h.param('q'))
        a, b, c = 2 * q - 1, q * q - 1, q * q - q + 1
        cf = (lambda v: h.const(v)) if h.sym else float
        p = [s, s + t * cf(a), s + t * cf(b)]
        e = [s + t * cf((a + b - c) / 3), s + t * cf((a + b + c) / 3)]
    it = list(e)

    def fsolve(f, x0, *a, **k):
        x = it.pop(0)
        return h.wrap(np.array([x], object)) if h.sym else np.array([x])
    w, d = lib(h, **{'scipy.optimize.fsolve': fsolve})
    g = d.Gf0(RS(h.wrap(np.array(p, object)) if h.sym else np.array(p)))
    f = d.Gfimp(n)
    f.fit(g)
    z = freqs(h, 1)
    # 1/G0 - (z - e0 - Delta) = 0, cleared of denominators
    P, Q, D = 1, 0, 1
    for x in p:
        P = P * (z[0] - x)
    for x in e:
        D = D * (z[0] - x)
    N = (z[0] - f.e0) * D
    for k, x in enumerate(e):
        o = 1
        for j, y in enumerate(e):
            if j != k:
                o = o * (z[0] - y)
        N = N - f.vk2[k] * o
    h.eq(N, P, 'poles of the fitted model')
    dP = 0
    for i in range(n):
        o = 1
        for j, x in enumerate(p):
            if j != i:
                o = o * (z[0] - x)
        dP = dP + o
    h.eq(dP, n * D, 'zeros of the fitted model')


# -- observables ------------------------------------------------------------
def occupation(h):
    n, nu, nd, pos = h.param('n'), h.param('nu'), h.param('nd'), h.param('pos')
    w, d = lib(h)
    s = w.espace.build_empty_sector(n, nu, nd)
    v = h.array('v', s.d)
    h.eq(d.get_occupation(v, s.states.up, s.states.dw, pos),
         number(h, v, nu, nd, n, pos, 0) + number(h, v, nu, nd, n, pos, 1), 'occupation')


def thermal(h):
    n, pos, mem = h.param('n'), h.param('pos'), h.param('mem')
    w, d = lib(h)
    beta, egs = h.real('beta', 0.1, 3), h.real('egs')
    es = {}
    Z, t = 0, 0
    for key, k in h.param('es'):
        s = w.espace.build_empty_sector(n, *key)
        s.eigvals = h.array('E%d%d' % key, k)
        v = h.array('v%d%d' % key, s.d, k)
        a = np.asarray(v)
        if mem == 'F':
            a = np.asfortranarray(a)
        elif mem == 'slice':            # the leading eigenvectors of a full diagonalisation
            b = np.empty((s.d, k + 1), a.dtype)
            b[:, :k] = a
            b[:, k] = a[:, 0]
            a = b[:, :k]
        s.eigvecs = h.wrap(a) if h.sym else a
        es[key] = s
        for l in range(k):
            wt = h_exp(h, -beta * (s.eigvals[l] - egs))
            Z = Z + wt
            t = t + wt * (number(h, v[:, l], key[0], key[1], n, pos, 0)
                          + number(h, v[:, l], key[0], key[1], n, pos, 1))
    h.eq(d.get_occupation(es, egs, beta, pos), t * recip(Z), 'thermal occupation')


def full(h):
    w, d = lib(h)
    up, dw = h.array('u', 3), h.array('d', 3)
    seen = []

    def occ(*a):
        seen.append(a)
        return up, dw
    d._get_occupation_full = occ
    got = d.get_occupation_full('es', 'egs', 'beta', 3)
    h.ok(seen == [('es', 'egs', 'beta', 3)], 'arguments')
    h.eq(got, [a + b for a, b in zip(up, dw)], 'both spins')


def entropy(h):
    nb = h.param('nb')
    w, d = lib(h)
    if h.sym:
        h.cx.fork_min = True
    beta, egs = h.real('beta', 0.1, 2), h.real('egs', -1, 1)
    sg = h.param('sg')
    ek = h.array('ek', nb, lo=-1, hi=1)
    for x, c in zip(ek, sg):            # no degeneracies: the ground state is one term
        h.assume((x > 0.01) if c == '+' else (x < -0.01))
    for a, b in zip(ek, ek[1:]):
        h.assume(b - a > 0.01)
    es, E, Z = {}, 0, 0
    for key, k in (((1, 0), 2), ((1, 1), 2)):
        s = w.espace.build_empty_sector(2, *key)
        s.eigvals = h.array('E%d%d' % key, k, lo=-1, hi=2)
        es[key] = s
        for x in s.eigvals:
            wt = h_exp(h, -beta * (x - egs))
            Z = Z + wt
            E = E + (x - egs) * wt
    # the free bath, relative to its ground state
    lev = []
    for m in range(1 << (2 * nb)):
        t = h.const(0)
        for j in range(2 * nb):
            if m >> j & 1:
                t = t + ek[j % nb]
        lev.append(t)
    low = h.const(0)
    for x in ek:
        if bool(x < 0):
            low = low + 2 * x
    E0, Z0 = 0, 0
    for t in lev:
        wt = h_exp(h, -beta * (t - low))
        Z0 = Z0 + wt
        E0 = E0 + (t - low) * wt
    log = (lambda x: x.log()) if h.sym else math.log
    got = d.get_entropy(Bath(0, ek, None), es, egs, beta)
    want = log(Z) + beta * E * recip(Z) - log(Z0) - beta * E0 * recip(Z0)
    kB = float(d.kB)
    h.ok(abs(kB - 8.617333262e-5) < 1e-9, 'Boltzmann constant in eV/K')
    h.eq(got / kB, want, 'entropy of the impurity')


# -- averages ---------------------------------------------------------------
class Sct:
    def __init__(self, vals, vecs):
        self.eigvals, self.eigvecs = vals, vecs
        self.states = self
        self.up, self.dw = 'up', 'dw'


def es_of(h, name, gs, other):
    """Two sectors; gs holds the ground state."""
    E = h.real(name + 'E', -5, 5)
    gap = h.real(name + 'g', 0.01, 5)
    g2 = h.real(name + 'h', 0, 5)
    out = {}
    for key in sorted((gs, other)):
        v = [E, E + g2] if key == gs else [E + gap, E + gap + g2]
        vals = h.wrap(np.array(v, object)) if h.sym else np.array(v)
        out[key] = Sct(vals, h.array(name + 'v%d%d' % key, 2, 2))
    return out, E, gap


def zgrid(h, m):
    x = [h.real('zr%d' % i) for i in range(m)]
    y = h.real('eta', 0.05, 1)
    z = [Cx(a, y) for a in x] if h.sym else [complex(a, y) for a in x]
    return h.wrap(np.array(z, object)) if h.sym else np.array(z)


def average(h):
    """siam_solve / ded_solve over a pattern of accepted realisations."""
    pattern, m, buf, given, n = h.param('pattern'), h.param('m'), h.param('buf'), h.param('given'), 3
    dev = h.param('lib') == 'dedlib_dev'
    w, d = lib(h)
    if h.sym:
        h.cx.fork_min = True
    log = []
    trial = [-1]
    T = len(pattern)
    z = zgrid(h, m)
    U, beta = h.real('U', 0, 10), h.real('beta', 0.1, 3)
    s0 = h.real('s0')
    rng = object()
    baths = [bath(h, str(i), n - 1) for i in range(T)]
    g0 = [h.carray('a%d' % i, m) for i in range(T)]
    g1 = [h.carray('b%d' % i, m) for i in range(T)]
    for v in list(np.ravel(g0)) + list(np.ravel(g1)):
        h.assume(v.real * v.real + v.imag * v.imag > 0.01)
    keep = {}
    for i, c in enumerate(pattern):
        a, b = ((1, 1), (2, 1)) if i % 2 else ((1, 2), (1, 1))
        keep[i] = (es_of(h, 'n%d' % i, a, b), es_of(h, 'i%d' % i, a if c == 'y' else b, b if c == 'y' else a), a,
                   a if c == 'y' else b)
    occ = {}

    class Sampler:
        def __init__(self, p, lims, n_, r, *a):
            h.ok(p == 'dos' and n_ == n and r is rng, 'sampler arguments')
            h.eq(lims, [z[0].real, z[-1].real], 'sampled over the energies')
            self.poles = None

    class G0:
        def __init__(self, rs):
            pass

        def sample(self):
            trial[0] += 1
            if trial[0] >= T:
                raise AssertionError('sampled too often')
            log.append(('sample', trial[0]))

        def __call__(self, zz):
            h.eq(zz, z, 'free Green function at the energies')
            return h.wrap(g0[trial[0]].copy())

    class GI:
        def __init__(self, n_):
            h.ok(n_ == n, 'size of the bath')

        def fit(self, g):
            b = baths[trial[0]]
            self.e0, self.ek, self.vk2 = b.e0, b.ek, b.vk2
            log.append(('fit', trial[0]))

    def espace(H, V, neig=None):
        i = trial[0]
        h.ok(log[-2:] == [('sample', i), ('fit', i)] or log[-1] == ('es', i, 0), 'order of the steps')
        inter = int(log[-1][0] == 'es')
        want = star(h, n, [baths[i]], 1)
        if inter:
            want[0, 0] = want[0, 0] - (s0 if given else U / 2)
        h.eq(H, want, 'Hamiltonian of the realisation')
        W = np.empty((n, n), object)
        W[...] = h.const(0)
        W[0, 0] = U if inter else h.const(0)
        h.eq(V, W, 'interaction of the realisation')
        if neig is not None:
            full_ = w.espace.get_espace_dim(n)
            h.ok(all(int(x) == min(3, int(y)) for x, y in zip(neig, full_)) and len(neig) == len(full_),
                 'states kept in every sector')
        log.append(('es', i, inter))
        e, E, _ = keep[i][inter]
        return dict(e), E

    def gf_exact(H, V, e, b, E, *a, **k):
        i = trial[0]
        h.ok(not a and not k, 'impurity Green function')
        h.eq(b, beta, 'temperature')
        h.eq(E, keep[i][1][1], 'ground state energy')
        h.ok(set(e) == set(keep[i][1][0]), 'interacting eigenspace')
        want = star(h, n, [baths[i]], 1)
        want[0, 0] = want[0, 0] - (s0 if given else U / 2)
        h.eq(H, want, 'interacting Hamiltonian')

        def f(re, im):
            h.eq(re, [x.real for x in z], 'energies')
            h.eq(im, [x.imag for x in z], 'broadening')
            return h.wrap(g1[i].copy())
        return f

    def entr(g, e, E, b):
        i = trial[0]
        h.eq(E, keep[i][1][1], 'entropy of the interacting system')
        h.ok(set(e) == set(keep[i][1][0]), 'entropy of the interacting system')
        h.ok(e[keep[i][3]] is keep[i][1][0][keep[i][3]], 'entropy of the interacting system')
        h.eq(b, beta, 'entropy at the temperature')
        h.eq(g.ek, baths[i].ek, 'entropy of the bath')
        return ent[i]

    ent = [h.real('S%d' % i) for i in range(T)]
    o0 = [h.real('o%d' % i) for i in range(T)]
    o1 = [h.real('q%d' % i) for i in range(T)]

    def occup(*a):
        i = trial[0]
        if dev:
            e, E, b, pos = a
            inter = log[-1][2]
            h.eq(b, beta, 'temperature')
            h.eq(E, keep[i][inter][1], 'energy reference')
            h.ok(e[keep[i][2]] is keep[i][inter][0][keep[i][2]], 'eigenspace')
        else:
            v, up, dw, pos = a
            inter = log[-1][2]
            gs = keep[i][0][0][keep[i][2]] if not inter else keep[i][1][0][keep[i][3]]
            h.eq(v, gs.eigvecs[:, 0], 'ground state')
            h.ok((up, dw) == ('up', 'dw'), 'basis')
        h.ok(pos == 0, 'impurity site')
        return (o1 if inter else o0)[i]
    d.RandomSampler, d.Gf0, d.Gfimp = Sampler, G0, GI
    d.build_espace, d.build_gf_exact, d.get_entropy, d.get_occupation = espace, gf_exact, entr, occup
    acc = [i for i, c in enumerate(pattern) if c == 'y']
    N = len(acc)
    kw = dict(n=n, N=N, U=U, beta=beta, rng=rng)
    if given:
        kw['sigma0'] = s0
    sig = None
    if buf:
        sig = h.wrap(np.array([Cx(h.const(0), h.const(0))] * m, object)) if h.sym else np.zeros(m, complex)
        kw['sigma'] = sig
    f = d.ded_solve if dev else d.siam_solve
    got = f('dos', z.copy(), **kw)
    h.ok(trial[0] == T - 1, 'samples until enough are accepted')
    if buf:
        h.ok(len(got) == 3, 'results')
        got = (sig,) + tuple(got)
    h.ok(len(got) == 4, 'results')
    if dev:
        wt = {}
        for i, c in enumerate(pattern):
            if c == 'y':
                wt[i] = h.const(1)
            else:
                wt[i] = h_exp(h, -beta * keep[i][1][2])
        use = range(T)
    else:
        wt = {i: h.const(1) for i in acc}
        use = acc
    Q = 0
    for i in use:
        Q = Q + wt[i]

    def mean(f):
        t = 0
        for i in use:
            t = t + f(i) * wt[i]
        return t * recip(Q)
    for j in range(m):
        h.eq(got[0][j], mean(lambda i: 1 / g0[i][j] - 1 / g1[i][j]), 'averaged self-energy')
    h.eq(got[1], mean(lambda i: o0[i]), 'free occupation')
    h.eq(got[2], mean(lambda i: o1[i]), 'interacting occupation')
    kB = d.kB
    h.eq(got[3] * kB, mean(lambda i: ent[i]), 'entropy')


def multi(h):
    """moam_solve / ded_solve_multi: every impurity averages over its own accepted realisations."""
    pattern, m, buf, kind = h.param('pattern'), h.param('m'), h.param('buf'), h.param('kind')
    k, nb = len(pattern[0]), h.param('nb')
    n = k * (nb + 1)
    dev = h.param('lib') == 'dedlib_dev'
    w, d = lib(h)
    T = len(pattern)
    z = zgrid(h, m)
    beta = h.real('beta', 0.1, 3)
    u = h.real('U', 0, 10)
    s0 = [h.real('s0%d' % j) if kind == 'matrix' and j else h.real('s0') for j in range(k)]     # per impurity, or one for all
    rng = object()
    log, trial = [], [-1]
    baths = [[bath(h, '%d_%d' % (i, j), nb) for j in range(k)] for i in range(T)]
    g0 = [[h.carray('a%d_%d' % (i, j), m) for j in range(k)] for i in range(T)]
    g1 = [[h.carray('b%d_%d' % (i, j), m) for j in range(k)] for i in range(T)]
    for v in list(np.ravel(g0)) + list(np.ravel(g1)):
        h.assume(v.real * v.real + v.imag * v.imag > 0.01)
    sub = [[j] + list(range(k + j * nb, k + (j + 1) * nb)) for j in range(k)]
    # occupations: the subsystem totals agree exactly for the accepted impurities
    occ = [[None, None] for _ in range(T)]
    for i in range(T):
        a = [h.real('x%d_%d' % (i, s), 0, 2) for s in range(n)]
        b = [h.real('y%d_%d' % (i, s), 0, 2) for s in range(n)]
        for j in range(k):
            ta = sum((a[s] for s in sub[j]), h.const(0))
            if pattern[i][j] == 'y':
                rest = sum((b[s] for s in sub[j][:-1]), h.const(0))
                b[sub[j][-1]] = ta - rest
            else:
                h.assume(abs(ta - sum((b[s] for s in sub[j]), h.const(0))) > 0.001)
        occ[i] = [a, b]
    E = [[h.real('E%d_%d' % (i, s)) for s in range(2)] for i in range(T)]

    class Sampler:
        made = []

        def __init__(self, p, lims, n_, r, *a):
            h.ok(p == 'dos%d' % len(Sampler.made) and n_ == nb + 1 and r is rng, 'sampler arguments')
            h.eq(lims, [z[0].real, z[-1].real], 'sampled over the energies')
            self.i = len(Sampler.made)
            Sampler.made.append(self)

    class G0:
        def __init__(self, rs):
            self.j = rs.i

        def sample(self):
            if self.j == 0:
                trial[0] += 1
                if trial[0] >= T:
                    raise AssertionError('sampled too often')
            log.append(('sample', trial[0], self.j))

        def __call__(self, zz):
            h.eq(zz, z, 'free Green function at the energies')
            return h.wrap(g0[trial[0]][self.j].copy())

    class GI:
        def __init__(self, n_):
            h.ok(n_ == nb + 1, 'size of the bath')

        def fit(self, g):
            h.ok(log[-1] == ('sample', trial[0], g.j), 'fit of its own sample')
            b = baths[trial[0]][g.j]
            self.e0, self.ek, self.vk2 = b.e0, b.ek, b.vk2
            log.append(('fit', trial[0], g.j))

    def ham(i, inter):
        want = star(h, n, baths[i], k)
        if inter:
            for j in range(k):
                want[j, j] = want[j, j] - (s0[j] if kind != 'scalar' else u / 2)
        return want

    def vmat():
        W = np.empty((n, n), object)
        W[...] = h.const(0)
        for a in range(k):
            for b in range(k):
                if kind == 'scalar':
                    W[a, b] = u if a == b else h.const(0)
                else:
                    W[a, b] = Um[a][b]
        return W
    Um = [[h.real('U%d%d' % (a, b)) for b in range(k)] for a in range(k)]
    asarr = (lambda x: h.wrap(np.array(x, object))) if h.sym else (lambda x: np.array(x, float))
    if kind == 'scalar':
        U = u
    elif kind == 'matrix':
        U = asarr(Um)
    else:
        U = {'x': asarr(Um), 'y': asarr([[2 * v for v in r] for r in Um])}
    state = [None]

    class ES(dict):
        pass

    def espace(H, V, neig=None):
        i = trial[0]
        inter = int(log[-1][0] == 'es')
        if inter:
            h.ok(log[-1] == ('es', i, 0), 'order of the steps')
        else:
            h.ok(log[-1] == ('fit', i, k - 1), 'order of the steps')
        h.eq(H, ham(i, inter), 'Hamiltonian of the realisation')
        if inter and kind == 'dict':
            h.ok(set(V) == {'x', 'y'}, 'interaction terms')
            h.eq(V['x'], vmat(), 'interaction')
            h.eq(V['y'], np.array([[2 * v for v in r] for r in vmat()], object), 'interaction')
        elif inter:
            h.eq(V, vmat(), 'interaction')
        else:
            h.eq(V, np.array([[h.const(0)] * n] * n, object), 'no interaction')
        log.append(('es', i, inter))
        e = ES()
        e.tag = (i, inter)
        e.screened = False
        e[(0, 1)] = Sct([E[i][inter] + 1], h.array('w%d%d' % (i, inter), 1, 1))
        e[(1, 1)] = Sct([E[i][inter], E[i][inter] + 1], h.array('v%d%d' % (i, inter), 2, 2))
        return e, E[i][inter]

    def screen(e, egs, b, *a):
        h.eq(egs, E[e.tag[0]][e.tag[1]], 'screening')
        h.eq(b, beta, 'screening')
        e.screened = True

    def occup1(v, up, dw, pos):
        i, inter = log[-1][1:]
        h.eq(v, h.array('v%d%d' % (i, inter), 2, 2)[:, 0], 'ground state')
        return occ[i][inter][int(pos)]

    def occup_all(e, egs, b, n_):
        h.ok(n_ == n and e.screened, 'occupations of the screened space')
        h.eq(egs, E[e.tag[0]][e.tag[1]], 'energy reference')
        h.eq(b, beta, 'temperature')
        h.ok(e.tag == log[-1][1:], 'eigenspace')
        return asarr(occ[e.tag[0]][e.tag[1]])

    def lanczos(H, V, e, b, egs, pos=0, **kw):
        i = trial[0]
        h.ok(e.tag == (i, 1) and e.screened, 'screened interacting eigenspace')
        h.eq(H, ham(i, 1), 'interacting Hamiltonian')
        h.eq(b, beta, 'temperature')
        h.eq(egs, E[i][1], 'ground state energy')
        h.ok(not kw, 'Green function')
        log.append(('gf', i, pos))

        def f(re, im):
            h.eq(re, [x.real for x in z], 'energies')
            h.eq(im, [x.imag for x in z], 'broadening')
            return h.wrap(g1[i][pos].copy())
        return f
    d.RandomSampler, d.Gf0, d.Gfimp = Sampler, G0, GI
    d.build_espace, d.build_gf_lanczos, d.screen_espace = espace, lanczos, screen
    if dev:
        d.get_occupation_full = occup_all
    else:
        d.get_occupation = occup1
    N = sum('y' in p for p in pattern)
    kw = dict(n=n, N=N, beta=beta, rng=rng, U=U)
    if kind != 'scalar':
        kw['sigma0'] = asarr(s0) if kind == 'matrix' and k > 1 else s0[0]
    sig = None
    if buf:
        zero = Cx(h.const(0), h.const(0)) if h.sym else 0j
        sig = h.wrap(np.array([[zero] * m] * k)) if h.sym else np.zeros((k, m), complex)
        kw['sigma'] = sig
    got = (d.ded_solve_multi if dev else d.moam_solve)(['dos%d' % j for j in range(k)], z.copy(), **kw)
    h.ok(trial[0] == T - 1, 'samples until enough are accepted')
    got = list(got)
    if buf:
        got = [sig] + got
    h.ok(len(got) == (3 if dev else 4), 'results')
    h.ok(np.shape(got[0]) == (k, m), 'self-energy of every impurity')
    h.ok(sorted((i, j) for t, i, j in log if t == 'gf')
         == [(i, j) for i in range(T) for j in range(k) if pattern[i][j] == 'y'], 'accepted realisations')
    for j in range(k):
        acc = [i for i in range(T) if pattern[i][j] == 'y']
        q = max(len(acc), 1)

        def mean(f):
            t = h.const(0)
            for i in acc:
                t = t + f(i)
            return t / q
        for e in range(m):
            h.eq(got[0][j, e], mean(lambda i: 1 / g0[i][j][e] - 1 / g1[i][j][e]), 'self-energy averaged over its own realisations')
        h.eq(got[1][j], mean(lambda i: occ[i][0][j]), 'free occupation')
        h.eq(got[2][j], mean(lambda i: occ[i][1][j]), 'interacting occupation')


# -- smoothing ---------------------------------------------------------------
def frac(x):
    return Fraction(float(x)).limit_denominator(1000)


def interp1d(h):
    """Piecewise linear interpolation (scipy.interpolate.interp1d)."""
    def build(x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, **k):
        x = [float(t) for t in x]
        y = list(y)
        h.ok(len(x) == len(y), 'as many abscissas as values')

        def one(t):
            t = float(t)
            if t < x[0] - 1e-9 or t > x[-1] + 1e-9:
                if bounds_error or (bounds_error is None and fill_value is None):
                    raise ValueError('out of bounds')
                return fill_value
            for i in range(len(x) - 1):
                if t <= x[i + 1] + 1e-9:
                    w = frac((t - x[i]) / (x[i + 1] - x[i]))
                    w = h.const(w) if h.sym else float(w)
                    return y[i] + w * (y[i + 1] - y[i])
            return y[-1]

        def call(t):
            if np.ndim(t) == 0:
                return one(t)
            out = np.empty(len(t), object if h.sym else complex)
            for i, v in enumerate(t):
                out[i] = one(v)
            return h.wrap(out) if h.sym else out
        return call
    return build


def fftmod(h):
    m = types.ModuleType('scipy.fftpack')
    turn = {1: [1], 2: [1, -1], 4: [1, -1j, -1, 1j]}

    def tr(x, inv):
        n = len(x)
        t = turn[n]
        out = np.empty(n, object)
        for k in range(n):
            v = h.const(0) if h.sym else 0.
            for j in range(n):
                c = t[(j * k) % n]
                c = c.conjugate() if inv else c
                v = v + x[j] * (int(c.real) if c.imag == 0 else (core.as_c(c) if h.sym else c))
            out[k] = v / n if inv else v
        if h.sym:
            for k in range(n):
                out[k] = core.as_c(out[k])
            return h.wrap(out)
        return out.astype(complex)
    m.fft = lambda x, *a, **k: tr(x, False)
    m.ifft = lambda x, *a, **k: tr(x, True)
    m.fftfreq = lambda n, d=1.: np.fft.fftfreq(n, d)
    m.rfft = m.irfft = no
    return m


def smoothing(h):
    """smooth: low-pass filter of both parts on a regular mesh, zero outside the mesh."""
    grid, cut = h.param('grid'), h.param('cut')
    e = np.array(grid) * 0.01
    w = h.new_world(stubs={'scipy.optimize.fsolve': no, 'interp1d': interp1d(h)})
    w.ext['scipy.fftpack'] = fftmod(h)
    d = getattr(w, h.param('lib'))
    s = h.carray('s', len(grid))
    s = s if h.sym else np.asarray(s, complex)
    keep = s.copy()
    f = d.smooth(e, s) if cut is None else d.smooth(e, s, cut)
    h.eq(s, keep, 'input untouched')
    N = grid[-1] - grid[0] + 1
    y = []
    for g in range(grid[0], grid[-1] + 1):
        for a, b, ya, yb in zip(grid, grid[1:], s, s[1:]):
            if a <= g <= b:
                t = Fraction(g - a, b - a)
                y.append(ya + (yb - ya) * (h.const(t) if h.sym else float(t)))
                break
    freq = np.fft.fftfreq(N, 0.01)
    cos = {1: [1], 2: [1, -1], 4: [1, 0, -1, 0]}[N]
    want = []
    for i in range(N):
        v = 0
        for j in range(N):
            c = sum(cos[(k * (i - j)) % N] for k in range(N) if abs(freq[k]) <= (2 if cut is None else cut))
            v = v + y[j] * (h.const(Fraction(c, N)) if h.sym else c / N)
        want.append(v)
    for i in range(N):
        h.eq(f((grid[0] + i) * 0.01), want[i], 'low-pass filtered value')
    h.eq(f((grid[0] + .5) * 0.01), (want[0] + want[1]) / 2, 'linear between mesh points')
    for x in (grid[0] - 1, grid[-1] + 1):
        h.eq(f(x * 0.01) + (h.const(0) if h.sym else 0), h.const(0) if h.sym else 0., 'zero outside the mesh')


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul=True, abstract_recip=True, timeout=80 if q else 600)
    for L in ('dedlib', 'dedlib_dev'):
        t = L[6:]
        for i, (g, c) in enumerate((((-1, 0, 2), None), ((-1, 0, 1, 2), 30), ((-2, 1), 60), ((0, 1), None), ((-1, 2), 10))):
            yield Inst('smooth%s_%d' % (t, i), smoothing, dict(lib=L, grid=g, cut=c), **ab)
        for nb in (1, 2, 3):
            yield Inst('siam%s_%d' % (t, nb), siam, dict(lib=L, nb=nb), **ab)
        for k, nb in ((1, 2), (2, 1), (2, 2), (3, 1), (3, 2)):
            yield Inst('moam%s_%d_%d' % (t, k, nb), moam, dict(lib=L, k=k, nb=nb), **ab)
        for m, n in ((2, 1), (3, 1), (3, 2), (5, 1)) + (() if q else ((5, 2), (7, 1), (3, 3))):
            yield Inst('sampler%s_%d_%d' % (t, m, n), sampler, dict(lib=L, m=m, n=n, lo={2: -1.0, 3: -0.5, 5: 0.5, 7: -3.0}[m]), timeout=80 if q else 600)
        for n in (1, 2, 3):
            for m in (1, 2):
                yield Inst('gf0%s_%d_%d' % (t, n, m), gf0, dict(lib=L, n=n, m=m, side=((6, 9), (-9, -6))[m % 2]), **ab)
        for n in (2, 3):
            yield Inst('fit%s_%d' % (t, n), fit, dict(lib=L, n=n), **ab)
        yield Inst('fitexact%s_2' % t, fit_exact, dict(lib=L, n=2), timeout=80)
        for qq in ('3', '5/2', '7/3'):
            yield Inst('fitexact%s_3_%s' % (t, qq.replace('/', 'o')), fit_exact, dict(lib=L, n=3, q=qq), timeout=80)
        for sg in ('+', '-', '--', '-+', '++'):
            yield Inst('entropy%s_%s' % (t, sg.replace('+', 'p').replace('-', 'm')), entropy,
                       dict(lib=L, nb=len(sg), sg=sg), **ab)
        for pat in ('y', 'yy', 'ny', 'yny', 'nnyy') + (() if q else ('yynyn'[:4] + 'y', 'nyyny')):
            for buf in (0, 1):
                yield Inst('average%s_%s_b%d' % (t, pat, buf), average,
                           dict(lib=L, pattern=pat, m=2 if len(pat) < 3 and 'n' not in pat else 1, buf=buf, given=buf), **ab)
        for pat in (('y',), ('n', 'y'), ('yy',), ('yn', 'yy'), ('nn', 'ny'), ('yn', 'nn', 'yy'), ('yny', 'yyn')):
            for kind in ('scalar', 'matrix', 'dict'):
                i = len(pat) + len(kind)
                yield Inst('multi%s_%s_%s' % (t, '_'.join(pat), kind), multi,
                           dict(lib=L, pattern=pat, m=1 + i % 2, buf=i // 2 % 2, kind=kind, nb=1 + (len(pat[0]) < 3 and i % 2)), **ab)
    for n in (1, 2, 3):
        for nu in range(n + 1):
            for nd in range(n + 1):
                for pos in range(n):
                    if n == 3 and q and (nu + 2 * nd + pos) % 3:
                        continue
                    yield Inst('occ_%d_%d%d_%d' % (n, nu, nd, pos), occupation,
                               dict(lib='dedlib', n=n, nu=nu, nd=nd, pos=pos), **ab)
    for n, es in ((1, (((0, 0), 1), ((1, 0), 1), ((1, 1), 1))), (2, (((1, 0), 2), ((0, 1), 1), ((1, 1), 3))),
                  (3, (((1, 0), 2), ((2, 1), 2)))):
        for pos in range(n):
            for mem in ('C', 'F', 'slice'):
                yield Inst('thermal_%d_%d_%s' % (n, pos, mem), thermal,
                           dict(lib='dedlib_dev', n=n, pos=pos, mem=mem, es=es), **ab)
    yield Inst('full', full, dict(lib='dedlib_dev'), **ab)
