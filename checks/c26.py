from .common import *
from .c18 import o_delta, o_chi2, o_dchi2
from .c11 import h_exp, recip

EXPLAIN = ('Impurity and lattice Green functions of the DMFT module run on symbolic bath parameters, '
           'frequencies, self-energies and interacting Green functions. Bath fits come from a stub of '
           'the minimiser; the interacting solution of an uncoupled impurity is run end to end through '
           'eigenspace, screening and Lanczos Green function and compared with the atomic limit.')
BOUNDS = {'quick': 'up to 3 bath sites, 2 frequencies, histories of fits and updates; one uncoupled '
                   'bath site for the solved impurity (all parameters, temperatures)',
          'thorough': 'up to 5 bath sites, 3 frequencies'}
OUTSIDE = 'convergence of the minimiser and root finder; the solution of coupled impurities is C09-C13'
STUBS = ['scipy.optimize.fmin_cg: free result vector', 'scipy.optimize.root_scalar: free root',
         'numpy.linalg.eigh: exact for the diagonal matrices of the uncoupled impurity']


def freqs(h, m, tag='w', side=1):
    x, y = h.array(tag + 'r', m), h.array(tag + 'i', m, lo=0.05, hi=5) if side > 0 else h.array(tag + 'i', m, lo=-5, hi=-0.05)
    if h.sym:
        return h.wrap(np.array([Cx(a, b) for a, b in zip(x, y)], object))
    return np.asarray(x, float) + 1j * np.asarray(y, float)


def no(*a, **k):
    raise AssertionError('not expected')


def load(h, fits=None, **kw):
    """dmft with a minimiser that returns the given vectors one after the other."""
    fits = list(fits or [])
    seen = []

    def fmin(f, x0, fprime=None, **k):
        seen.append((f, x0.copy(), fprime))
        return fits.pop(0).copy()
    w = h.new_world(stubs=dict({'scipy.optimize.fmin_cg': fmin}, **kw))
    return w, w.dmft, seen


def hyb(p, z):
    return o_delta(p, z)


def expect_H(h, x, mu, nb):
    H = np.empty((nb + 1, nb + 1), object)
    H[...] = h.const(0)
    H[0, 0] = -mu
    for k in range(nb):
        H[k + 1, k + 1] = x[k]
        H[0, k + 1] = H[k + 1, 0] = x[nb + k]
    return H


def bath(h):
    """Histories of fits and updates leave exactly the last bath and potential in H."""
    nb, hist = h.param('nb'), h.param('hist')
    m = 1
    U, beta = h.real('U', 0, 10), h.real('beta', 0.5, 50)
    xs = [h.array('x%d' % i, 2 * nb) for i in range(3)]
    mus = [h.real('mu%d' % i) for i in range(3)]
    tg = [h.carray('t%d' % i, m) for i in range(3)]
    w, d, seen = load(h, [xs[int(c[1])] for c in hist if c[0] in 'fb'])
    g = d.Gfimp(nb + 1, nmats=m, U=U, beta=beta)
    x0 = g.Delta.x.copy()
    init = w.fit_cg.get_initial_bath(nbath=nb)
    h.eq(x0, init, 'the bath starts from the initial bath')
    x, mu, cur = x0, h.const(0), x0
    z = [1j * np.pi / beta] if not h.sym else [Cx(h.const(0), np.pi / beta)]
    fitted = False
    for c in hist:
        i = int(c[1])
        if c[0] == 'f':
            g.fit(tg[i])
        elif c[0] == 'u':
            g.update(mus[i])
        elif c[0] == 'b':
            g.fit_update(tg[i], mus[i])
        elif c[0] == 'r':
            g.reset_bath()
        if c[0] in 'fb':
            f, start, fp = seen[-1]
            h.eq(start, cur, 'the fit starts from the present bath')
            h.eq(f(xs[2]), o_chi2(xs[2], z, tg[i]), 'the fit minimises the distance to its target')
            cur = x = xs[i]
            fitted = True
        if c[0] in 'ub':
            mu = mus[i]
        if c[0] == 'r':
            cur = init
        h.eq(g.Delta.x, cur, 'bath parameters')
        h.eq(g.ek, cur[:nb], 'bath energies')
        h.eq(g.vk, cur[nb:], 'bath hoppings')
        if fitted:
            h.eq(g.H, expect_H(h, x, mu, nb), 'Hamiltonian of the fitted bath')
        h.eq(g.mu, mu, 'chemical potential')
    V = np.empty((nb + 1, nb + 1), object)
    V[...] = h.const(0)
    V[0, 0] = U
    h.eq(g.V, V, 'only the impurity interacts')


def _gf(h, name, m):
    """An interacting Green function: free complex values at the frequencies asked."""
    vals = h.carray(name, m)
    for v in vals:
        h.assume(v.real * v.real + v.imag * v.imag > 0.01)
    asked = []

    def gf(e, eta):
        asked.append((e, eta))
        return h.wrap(vals.copy()) if np.ndim(e) else vals[0]
    return gf, vals, asked


def dyson(h):
    nb, m = h.param('nb'), h.param('m')
    w, d, _ = load(h)
    g = d.Gfimp(nb + 1, nmats=m, U=h.real('U', 0, 10), beta=h.real('beta', 0.5, 50))
    x, mu = h.array('x', 2 * nb), h.real('mu')
    g.Delta.x[:] = x
    g.update(mu)
    z = freqs(h, m, side=h.param('side'))
    gf, vals, asked = _gf(h, 'G', m)
    g.gf = gf
    D = hyb(x, z)
    h.eq(g.Delta(z), D, 'hybridisation')
    inv = [z[i] + mu - D[i] for i in range(m)]
    h.eq(g.free(z, inverse=True), inv, 'inverse free Green function')
    h.eq(g.free(z), [1 / t for t in inv], 'free Green function')
    S = g.Sigma(z)
    h.eq(S, [inv[i] - 1 / vals[i] for i in range(m)], 'self-energy')
    for e, eta in asked:
        h.eq(e, [t.real for t in z], 'asked at the real parts')
        h.eq(eta, [t.imag for t in z], 'asked at the imaginary parts')
    h.eq(g(z), vals, 'the Dyson equation returns the interacting Green function')


def scalar(h):
    """One frequency as a number (integration along a contour asks for these)."""
    nb = h.param('nb')
    w, d, _ = load(h)
    g = d.Gfimp(nb + 1, nmats=1, U=h.real('U', 0, 10), beta=h.real('beta', 0.5, 50))
    x, mu = h.array('x', 2 * nb), h.real('mu')
    g.Delta.x[:] = x
    g.update(mu)
    z = freqs(h, 1)
    gf, vals, _ = _gf(h, 'G', 1)
    g.gf = gf
    h.eq(g(z[0]), vals[0], 'Green function at one frequency')
    h.eq(g.free(z[0]), 1 / (z[0] + mu - hyb(x, z)[0]), 'free Green function at one frequency')


# -- the solved impurity in the atomic limit ----------------------------------------
def diag_eigh(h):
    def eigh(M):
        n = len(M)
        for i in range(n):
            for j in range(n):
                if i != j and not _zero(M[i, j]):
                    core.ctx().unsupported('eigh of a coupled matrix')
        ix = list(range(n))
        # insertion sort; the comparisons are decided by the assumptions
        for a in range(1, n):
            b = a
            while b and bool(M[ix[b], ix[b]] < M[ix[b - 1], ix[b - 1]]):
                ix[b], ix[b - 1] = ix[b - 1], ix[b]
                b -= 1
        wv = h.wrap(np.array([M[i, i] for i in ix], object))
        v = np.empty((n, n), object)
        for c, i in enumerate(ix):
            for r in range(n):
                v[r, c] = h.const(1 if r == i else 0)
        return wv, h.wrap(v)
    return eigh


def _zero(x):
    import z3
    e = getattr(x, 't', x)
    try:
        if x.is_const:
            return x.n == 0
    except AttributeError:
        pass
    try:
        e = z3.simplify(e)
        return z3.is_rational_value(e) and e.as_fraction() == 0
    except Exception:
        return bool(x == 0)


def atomic_ref(h, mus, U, z, spin):
    """One electron on the impurity, of the spin(s) with the lowest level; mus = [up(, down)]."""
    up, dw = mus[0], mus[-1]
    same = len(mus) == 1
    me, oth = (up, dw) if spin == 0 else (dw, up)
    out = []
    for zz in z:
        rem, add = 1 / (zz + me), 1 / (zz + me - U)
        # spin down lies lower when the potentials differ
        out.append((rem + add) / 2 if same else rem if spin == 1 else add)
    return out


def gaps(mus, U, e1, e1d):
    """Excitation energies of the uncoupled impurity."""
    up, dw = mus[0], mus[-1]
    for u in (0, 1):
        for d in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    if (u, d, b, c) == (0, 1, 0, 0) or (len(mus) == 1 and (u, d, b, c) == (1, 0, 0, 0)):
                        continue
                    yield dw - up * u - dw * d + U * (u * d) + e1 * b + e1d * c


def solved(h):
    """Uncoupled bath site: the solved impurity is the atomic limit."""
    spin = h.param('spin')
    beta = h.real('beta', 0.2, 2)
    U = h.real('U', 3, 4)
    mu = h.real('mu', 1, 1.4)
    e1 = h.real('e1', 5, 6)
    w, d, _ = load(h)
    if h.sym:
        h.cx.fork_min = True
    w.eigh_hook = diag_eigh(h)

    def exp(np0):
        def f(x, *a, **k):
            for v in np.asarray(x).reshape(-1):
                # otherwise they overflow, or all vanish, at low temperature
                h.ok((v.real if h.sym else v) <= (0 if h.sym else 1e-6), 'weights relative to the ground state')
            return np0.exp(x, *a, **k)
        return f
    for mod in (w.gf_lanczos, w.espace):
        patch_np(mod, exp=exp(mod.np))
    z = freqs(h, 2)
    if spin is None:
        g = d.Gfimp(2, nmats=1, U=U, beta=beta)
        g.Delta.x[0], g.Delta.x[1] = e1, h.const(0)
        g.H[1, 1] = e1
        g.update(mu)
        mus, parts = [mu], [(g, 0)]
    else:
        g = d.SpinGfimp(2, nmats=1, U=U, beta=beta)
        mud = h.real('mud', 1.5, 1.9)
        e1d = h.real('e1d', 6.5, 7)
        for s, (e, m) in enumerate(((e1, mu), (e1d, mud))):
            g[s].Delta.x[0], g[s].Delta.x[1] = e, h.const(0)
            g.H[s, 1, 1] = e
            g[s].update(m)
        mus = [mu, mud]
        parts = [(g.up, 0), (g.dw, 1)]
    refs = [atomic_ref(h, mus, U, z, s) for _, s in parts]
    if h.sym:                           # excited states are screened at once
        for gap in gaps(mus, U, e1, e1 if spin is None else e1d):
            h.assume(h_exp(h, -10**6 * gap) < h.const(Fraction(1, 10**30)))
    g.solve()
    for (gg, s), ref in zip(parts, refs):
        h.eq(gg.gf(h.wrap(np.array([t.real for t in z], object)) if h.sym else z.real,
                   h.wrap(np.array([t.imag for t in z], object)) if h.sym else z.imag), ref,
             'the solved impurity is the atomic limit')
    h.ok(g.egs is not None and g.espace is not None, 'eigenspace kept')


# -- spin-resolved impurity -----------------------------------------------------------
def spinful(h):
    nb, m = h.param('nb'), 1
    xs = [h.array('x%d' % i, 2 * nb) for i in range(4)]
    mus = [h.real('mu%d' % i) for i in range(4)]
    w, d, seen = load(h, xs)
    U, beta = h.real('U', 0, 10), h.real('beta', 0.5, 50)
    g = d.SpinGfimp(nb + 1, nmats=m, U=U, beta=beta)
    tg = h.carray('t', 4).reshape(4, 1)
    g.fit(tg[:2])
    g.update(mus[0])
    for s in (0, 1):
        h.eq(g.H[s], expect_H(h, xs[s], mus[0], nb), 'each spin has its own bath')
        h.eq(g[s].H, g.H[s], 'the parts see the Hamiltonian of the whole')
    h.eq(g.mu, mus[0], 'chemical potential')
    g.up.update(mus[1])
    g.dw.update(mus[2])
    for s in (0, 1):
        h.eq(g.H[s], expect_H(h, xs[s], mus[1 + s], nb), 'each spin has its own potential')
    g.update(mus[3])
    for s in (0, 1):
        h.eq(g.H[s], expect_H(h, xs[s], mus[3], nb), 'one potential for both again')
    h.eq(g.mu, mus[3], 'chemical potential')
    g.up.update(mus[1])
    g.dw.update(mus[2])
    g.fit_update(tg[2:], mus[3])
    for s in (0, 1):
        h.eq(g.H[s], expect_H(h, xs[2 + s], mus[3], nb), 'fit and update of both spins')
        h.eq(g[s].Delta.x, xs[2 + s], 'bath of each spin')
    z = freqs(h, 2)
    gs = [_gf(h, 'G%d' % s, 2) for s in (0, 1)]
    for s in (0, 1):
        g[s].gf = gs[s][0]
    S = g.Sigma(z)
    h.ok(np.shape(S) == (2, 2), 'self-energy per spin and frequency')
    for s in (0, 1):
        D = hyb(xs[2 + s], z)
        h.eq(S[s], [z[i] + mus[3] - D[i] - 1 / gs[s][1][i] for i in range(2)], 'self-energy of each spin')
    g.up.update(mus[0])
    g.spin_symmetrize()
    for s in (0, 1):
        h.eq(g.H[s], expect_H(h, xs[2], mus[0], nb), 'symmetrised Hamiltonian')
        h.eq(g[s].Delta.x, xs[2], 'symmetrised bath')
    g.dw.update(mus[1])
    g.dw.Delta.x[:] = xs[3]
    h.eq(g.H[0], expect_H(h, xs[2], mus[0], nb), 'the parts stay independent')
    h.eq(g.up.Delta.x, xs[2], 'the baths stay independent')
    g.reset_bath()
    init = w.fit_cg.get_initial_bath(nbath=nb)
    for s in (0, 1):
        h.eq(g[s].Delta.x, init, 'both baths reset')
    h.eq(g.V[0, 0], U, 'interaction')


# -- lattice Green functions -----------------------------------------------------------
def lattice(h):
    kind, m = h.param('kind'), h.param('m')
    w, d, _ = load(h)
    z, mu = freqs(h, m), h.real('mu')
    Sv = h.carray('S', m)
    Hy = h.carray('F', m)
    Sigma = lambda zz: h.wrap(Sv.copy())
    if kind == 'hybrid':
        g = d.Gfhybrid(lambda zz: h.wrap(Hy.copy()))
        inv = [z[i] + mu - Hy[i] - Sv[i] for i in range(m)]
        inv0 = [z[i] + mu - Hy[i] for i in range(m)]
        want_d = list(Hy)
    else:
        # a transform with arbitrary parameters: 1/(a x - b)
        a, b = h.cplx('a'), h.cplx('b')
        h.assume(a.real * a.real > 0.01)
        g = d.Gfhilbert(lambda x: 1 / (a * x - b))
        inv = [a * (z[i] + mu - Sv[i]) - b for i in range(m)]
        inv0 = [a * (z[i] + mu) - b for i in range(m)]
        want_d = [z[i] + mu - Sv[i] - inv[i] for i in range(m)]
    g.update(mu)
    g.set_local(Sigma)
    h.eq(g(z, inverse=True), inv, 'inverse Green function')
    h.eq(g(z), [1 / t for t in inv], 'Green function')
    h.eq(g.free(z, inverse=True), inv0, 'inverse free Green function')
    h.eq(g.free(z), [1 / t for t in inv0], 'free Green function')
    h.eq(g.Weiss(z), [Sv[i] + inv[i] for i in range(m)], 'Weiss field')
    h.eq(g.Delta(z), want_d, 'hybridisation seen by the impurity')
    h.eq(g.mu, mu, 'chemical potential')


def bethe(h):
    """ht(z) solves g^2 - 4 z g + 4 = 0 on the physical sheet."""
    _, d, _ = load(h)
    x, y = h.real('x', -3, 3), h.real('y', 0.01, 3)
    if h.param('axis'):
        y = h.const(0)
        h.assume(x * x < 0.9)
    z = Cx(x, y) if h.sym else complex(x, y)
    g = d.ht(z)
    r = g * g - 4 * z * g + 4
    if h.param('axis'):
        h.ok(abs(r.real) < h.const(1e-6), 'semicircle equation')
        h.ok(abs(r.imag) < h.const(1e-6), 'semicircle equation')
    else:
        h.eq(r, z * 0, 'semicircle equation')
    h.ok(g.imag < 0, 'causal branch')


# -- steps -------------------------------------------------------------------------------
def loc(h, d, w, m):
    """A local Green function that records nothing and depends on its mu."""
    class L(d.Gfloc):
        pass
    g = L()
    g.ed = h.real('ed')
    g.mu = h.real('mu')
    return g


def steps(h):
    nb, kind = h.param('nb'), h.param('kind')
    x = h.array('x', 2 * nb)
    root = h.real('root')
    roots = []

    def rs(f, *a, **k):
        roots.append((f, a, k))

        class Rt:
            pass
        r = Rt()
        r.root = root
        r.converged = True
        return r
    w, d, seen = load(h, [x, x], **{'scipy.optimize.root_scalar': rs})
    t = h.carray('t', 1)
    beta = h.real('beta', 0.5, 50)
    U = h.real('U', 0, 10)
    lo = loc(h, d, w, 1)
    mu0 = lo.mu
    spin = kind == 'magnetic'
    g = (d.SpinGfimp if spin else d.Gfimp)(nb + 1, nmats=1, U=U, beta=beta)
    solved_at = []
    g.solve = lambda: solved_at.append(g.H.copy())
    goal = h.array('goal', 2)
    occ = {}

    def integrate(mu):
        occ.setdefault('n', []).append(mu)
        return h.wrap(np.array([mu * mu * mu + 2, mu], object)) if h.sym else np.array([mu ** 3 + 2, mu])
    lo.integrate = integrate
    if kind == 'plain':
        d.dmft_step(t, g, lo)
    elif kind == 'adjust':
        d.dmft_step_adjust(t, g, lo, goal)
    else:
        sign, field = h.param('sign'), h.real('field')
        d.dmft_step_magnetic(t, g, lo, sign, field)
    if not spin:
        want = expect_H(h, x, mu0 - lo.ed, nb)
        h.ok(len(solved_at) == 1, 'the impurity is solved once')
        h.eq(solved_at[0], want, 'solved with the fitted bath and the present potential')
    else:
        h.ok(len(solved_at) == 1, 'the impurity is solved once')
        for s in (0, 1):
            want = expect_H(h, x, mu0 + sign * field * (1 - 2 * s) - lo.ed, nb)
            h.eq(solved_at[0][s], want, 'both spins get the bath and opposite fields')
            h.eq(g[s].Delta.x, x, 'both spins get the bath')
    f, start, fp = seen[0]
    zz = [Cx(h.const(0), np.pi / beta) if h.sym else 1j * np.pi / beta]
    q = h.array('q', 2 * nb)
    h.eq(f(q), o_chi2(q, zz, t), 'fitted to the hybridisation given')
    z = freqs(h, 1)
    gs = [_gf(h, 'G%d' % s, 1) for s in (0, 1)]
    for s, part in enumerate(g):
        part.gf = gs[s][0]
    h.eq(lo.Sigma(z), g.Sigma(z), 'the lattice gets the impurity self-energy')
    if kind == 'adjust':
        h.ok(len(roots) == 1, 'one root search')
        fn = roots[0][0]
        m2 = h.real('m2')
        h.eq(fn(m2), m2 * m2 * m2 + 2 + m2 - goal[0] - goal[1], 'the root is where the occupations match')
        h.eq(lo.mu, root, 'the potential found is used')
    else:
        h.eq(lo.mu, mu0, 'potential unchanged')


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul=True, abstract_recip=True, timeout=60 if q else 400)
    for nb in (1, 2, 3) if q else (1, 2, 3, 5):
        for k, hs in enumerate(('f0 u0', 'u1 f0 u2 f1', 'b0 r0 b1', 'f0 b1 u0 r0 f2')):
            yield Inst('bath%d_nb%d' % (k, nb), bath, dict(nb=nb, hist=hs.split()), **ab)
    for nb, m in ((1, 1), (2, 2), (3, 1)) + (() if q else ((5, 3),)):
        for side in (1, -1):
            yield Inst('dyson%s_nb%d_m%d' % ('' if side > 0 else 'low', nb, m), dyson, dict(nb=nb, m=m, side=side), **ab)
        yield Inst('scalar_nb%d' % nb, scalar, dict(nb=nb), **ab)
        yield Inst('spinful_nb%d' % nb, spinful, dict(nb=nb), **ab)
    for s in (None, 1):
        yield Inst('solved_%s' % s, solved, dict(spin=s), **ab)
    for kind in ('hybrid', 'hilbert'):
        for m in (1, 2):
            yield Inst('lattice_%s_m%d' % (kind, m), lattice, dict(kind=kind, m=m), **ab)
    for ax in (0, 1):
        yield Inst('bethe_%d' % ax, bethe, dict(axis=ax), timeout=60)
    for nb in (1, 2):
        for kind in ('plain', 'adjust'):
            yield Inst('step_%s_nb%d' % (kind, nb), steps, dict(nb=nb, kind=kind), **ab)
        for sg in (1, -1):
            yield Inst('step_magnetic%+d_nb%d' % (sg, nb), steps, dict(nb=nb, kind='magnetic', sign=sg), **ab)
