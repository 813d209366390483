from .common import *
from .c18 import o_chi2
from .c26 import freqs, load, expect_H, _gf, hyb

EXPLAIN = ('The self-consistency loop runs on symbolic hybridisations, step results and tolerances: '
           'causality of the hybridisation handed on, the error, convergence and iteration limit, the '
           'mixing residual and the initialisation are compared with their definitions on every path.')
BOUNDS = {'quick': 'up to 3 frequencies, histories of up to 4 iterations, real or complex values of '
                   'either sign, both mixing methods, with and without adjusted chemical potential',
          'thorough': 'up to 4 frequencies and 6 iterations'}
OUTSIDE = 'convergence of the mixing schemes (SciPy)'
STUBS = ['scipy.optimize.broyden1/linearmixing: evaluate the residual at free points',
         'scipy.optimize.fmin_cg, root_scalar: free results']


class Imp:
    def __init__(self, m, beta):
        self.nmats, self.beta = m, beta
        self.log = []

    def update(self, mu):
        self.log.append(('update', mu))

    def reset_bath(self):
        self.log.append(('reset',))

    def fit(self, d):
        self.log.append(('fit', d.copy()))

    def solve(self):
        self.log.append(('solve',))


def zs(h, m, beta):
    return [Cx(h.const(0), (2 * k + 1) * np.pi / beta) if h.sym else 1j * (2 * k + 1) * np.pi / beta
            for k in range(m)]


def driver(h, d, m, news, **kw):
    beta = h.real('beta', 0.5, 50)

    class Loop(d.DMFT):
        def step(self, delta):
            seen.append(delta.copy())
            return h.const(1), news[len(seen) - 1].copy()
    seen = []
    imp = Imp(m, beta)

    class L(d.Gfloc):
        pass
    lo = L()
    lo.mu, lo.ed = h.real('mu'), h.real('ed')
    return Loop(imp, lo, **kw), seen, imp, lo


def norm2(v):
    t = 0
    for x in v:
        t = t + x.real * x.real + x.imag * x.imag
    return t


def loop(h):
    m, its, mx, causal = h.param('m'), h.param('its'), h.param('max'), h.param('causal')
    w, d, _ = load(h)
    tol = h.real('tol', 0.001, 1)
    news = [h.carray('n%d' % i, m) for i in range(its)]
    kw = dict(max_iter=mx, tol=tol)
    if h.inst.params.get('alpha'):      # the weights of the mixing do not enter the criterion
        kw['alpha'] = float(h.param('alpha'))
    if h.inst.params.get('goal'):
        kw.update(occupancy_goal=h.array('goal', 1), adjust_mu=h.param('goal') == 'adjust')
    dl, seen, imp, lo = driver(h, d, m, news, **kw)
    for i in range(its):
        x = h.carray('d%d' % i, m)
        if causal:
            for v in x:
                h.assume(v.imag <= 0)
        x0 = x.copy()
        try:
            got = dl(x)
            end = None
        except d.Converged:
            end = 'converged'
        except d.FailedToConverge:
            end = 'failed'
        h.ok(len(seen) == i + 1, 'one step per iteration')
        s = seen[i]
        for a, b in zip(s, x0):
            h.eq(a.real, b.real, 'real part handed on')
            if bool(b.imag > 0):
                h.ok(a.imag <= 0, 'the hybridisation handed on is causal')
                h.ok(a.imag >= h.const(-1e-9), 'and only just')
            else:
                h.eq(a.imag, b.imag, 'causal values handed on')
        e = norm2([a - b for a, b in zip(news[i], s)])
        e = e.sqrt() if h.sym else e ** .5
        if not h.sym and abs(e - tol) < 1e-6:
            return
        if end == 'converged':
            h.ok(e < tol, 'converged only below the tolerance')
            return
        h.ok(e >= tol, 'stops when converged')
        h.ok((end == 'failed') == (i + 1 > mx), 'gives up after the iterations allowed')
        if end:
            return
        h.eq(got, news[i], 'returns the new hybridisation')


def residual(h):
    m, alpha, method = h.param('m'), h.param('alpha'), h.param('method')
    news = [h.carray('n%d' % i, m) for i in range(4)]
    xs = [h.carray('x%d' % i, m) for i in range(1 if h.inst.params.get('acausal') else 3)]
    for x in xs:
        for v in x:
            h.assume(v.imag > 0 if h.inst.params.get('acausal') else v.imag <= 0)
    calls = []

    def mixer(name):
        def f(F, x0, **k):
            calls.append((name, x0.copy(), k))
            for i, x in enumerate(xs):
                r = F(x.copy())
                for j in range(m):
                    b = dl.gfimp.beta
                    wn = (2 * j + 1) * np.pi / b
                    want = news[i][j] - x[j]
                    if h.inst.params.get('acausal'):    # compared with the causal values the step has seen
                        h.ok(seen[-1][j].imag <= 0, 'the step sees causal values')
                        want = news[i][j] - seen[-1][j]
                    for _ in range(alpha):
                        want = want / wn
                    h.eq(r[j], want, 'weighted change of the hybridisation')
        return f
    w, d, _ = load(h, **{'scipy.optimize.broyden1': mixer('broyden'),
                         'scipy.optimize.linearmixing': mixer('linear')})
    dl, seen, imp, lo = driver(h, d, m, news, max_iter=50, tol=h.const(Fraction(1, 10**9)) if h.sym else 1e-12,
                               alpha=float(alpha))
    for i, x in enumerate(xs):
        h.assume(norm2([a - b.real for a, b in zip(news[i], x)] if h.inst.params.get('acausal')
                       else [a - b for a, b in zip(news[i], x)]) > 0.01)
    x0 = h.carray('start', m)
    if method == 'default':
        dl.solve(x0.copy())
    else:
        dl.solve(x0.copy(), mixing_method=method)
    h.ok(len(calls) == 1 and calls[0][0] == ('broyden' if method == 'default' else method), 'the method asked for')
    h.eq(calls[0][1], x0, 'starts from the guess')
    if method != 'default':
        xs[:] = []
        dl.solve(x0.copy(), mixing_method=method, alpha=0.25)
        h.ok(calls[1][2]['alpha'] == 0.25, 'mixes as strongly as asked')


def setup(h):
    m, alpha, default = h.param('m'), h.param('alpha'), h.param('default')
    w, d, _ = load(h)
    dl, seen, imp, lo = driver(h, d, m, [], alpha=float(alpha))
    beta = imp.beta
    z = zs(h, m, beta)
    h.eq(dl.z, z, 'Matsubara frequencies')
    for j in range(m):
        want = h.const(1)
        for _ in range(alpha):
            want = want / ((2 * j + 1) * np.pi / beta)
        h.eq(dl.weights[j], want, 'weights')
    S, G = h.carray('S', m), h.carray('g', m)
    U, mu = h.real('U', 0, 10), h.real('mu1')
    asked = []

    def sig(zz):
        asked.append(zz)
        return h.wrap(S.copy())
    type(lo).__call__ = lambda self, zz, inverse=False: h.wrap(G.copy())
    lo.mu = None
    got = dl.initialize(U, sig) if default else dl.initialize(U, sig, mu)
    want = U / 2 if default else mu
    h.eq(lo.mu, want, 'chemical potential of the lattice')
    ups = [x[1] for x in imp.log if x[0] == 'update']
    h.ok(len(ups) >= 1, 'impurity updated')
    h.eq(ups[-1], want - lo.ed, 'chemical potential of the impurity')
    h.ok(('reset',) in imp.log, 'bath reset')
    h.eq(got, [z[j] + want - S[j] - G[j] for j in range(m)], 'first hybridisation')
    for zz in asked:
        h.eq(zz, z, 'at the Matsubara frequencies')


def full(h):
    """Real impurity and lattice objects through one iteration."""
    m, adjust, goal_given = 1, h.param('adjust'), h.param('goal')
    nb = h.param('nb')
    x = h.array('x', 2 * nb)
    root = h.real('root')

    class Rt:
        converged = True
    Rt.root = root
    fs = []

    def rs(f, *a, **k):
        fs.append(f)
        return Rt
    w, d, seen = load(h, [x], **{'scipy.optimize.root_scalar': rs})
    beta, U = h.real('beta', 0.5, 50), h.real('U', 0, 10)
    Hy = h.carray('F', m)

    class L(d.Gfhybrid):
        def integrate(self, mu=0.):
            return h.wrap(np.array([mu * mu, mu + 1], object)) if h.sym else np.array([mu * mu, mu + 1])
    lo = L(lambda z: h.wrap(Hy.copy()))
    lo.ed, lo.mu = h.real('ed'), h.real('mu')
    mu0 = lo.mu
    g = d.Gfimp(nb + 1, nmats=m, U=U, beta=beta)
    gf, vals, _ = _gf(h, 'G', m)
    at = []

    def solve():
        at.append(g.H.copy())
        g.gf = gf
    g.solve = solve
    goal = h.array('goal', 2) if goal_given else None
    kw = dict(occupancy_goal=goal, adjust_mu=adjust)
    dl = d.DMFT(g, lo, tol=h.const(Fraction(1, 10**9)) if h.sym else 1e-12, **kw)
    delta = h.carray('d', m)
    for v in delta:
        h.assume(v.imag <= 0)
    z = zs(h, m, beta)
    h.assume(norm2([Hy[0] - delta[0]]) > 0.01)
    got = dl(delta.copy())
    h.ok(len(at) == 1, 'the impurity is solved once')
    h.eq(at[0], expect_H(h, x, mu0 - lo.ed, nb), 'the impurity of this iteration')
    q = h.array('q', 2 * nb)
    h.eq(seen[0][0](q), o_chi2(q, z, delta), 'fitted to the hybridisation handed in')
    h.eq(lo.mu, root if adjust else mu0, 'chemical potential after the iteration')
    h.eq(lo.Sigma(h.wrap(np.array(z, object)) if h.sym else np.array(z)),
         g.Sigma(h.wrap(np.array(z, object)) if h.sym else np.array(z)), 'impurity self-energy in the lattice')
    # Delta = z + mu - Weiss = Hybrid for this lattice
    h.eq(got, Hy, 'new hybridisation of the lattice')
    if adjust:
        h.eq(fs[0](root), root * root + root + 1 - goal[0] - goal[1], 'root of the occupation')


def magnetic(h):
    nb = 1
    x = h.array('x', 2 * nb)
    w, d, seen = load(h, [x])
    beta, U, mu = h.real('beta', 0.5, 50), h.real('U', 0, 10), h.real('mu')
    sign, field = h.param('sign'), h.real('field')
    g = d.SpinGfimp(nb + 1, nmats=1, U=U, beta=beta)
    at = []
    gfs = [_gf(h, 'G%d' % s, 1) for s in (0, 1)]

    def solve():
        at.append(g.H.copy())
        for s in (0, 1):
            g[s].gf = gfs[s][0]
    g.solve = solve
    S0 = h.carray('S', 1)
    Hy = h.carray('F', 1)

    class L(d.Gfhybrid):
        pass
    lo = L(lambda z: h.wrap(Hy.copy()))
    lo.ed = h.real('ed')
    dl = d.DMFT(g, lo)
    got = dl.initialize_magnetic(U, lambda z: h.wrap(S0.copy()), sign, field, mu)
    h.ok(len(at) == 1, 'the impurity is solved once')
    z = zs(h, 1, beta)
    for s in (0, 1):
        h.eq(at[0][s], expect_H(h, x, mu + sign * field * (1 - 2 * s) - lo.ed, nb), 'field on both spins')
    q = h.array('q', 2)
    h.eq(seen[0][0](q), o_chi2(q, z, Hy), 'fitted to the first hybridisation')
    h.ok(np.shape(got) == (2, 1), 'one hybridisation per spin')
    for s in (0, 1):
        h.eq(got[s], Hy, 'hybridisation of both spins')


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul=True, abstract_recip=True, timeout=60 if q else 400)
    op = dict(timeout=60 if q else 400)
    for m in (1, 2, 3) if q else (1, 2, 3, 4):
        yield Inst('loop_m%d' % m, loop, dict(m=m, its=1, max=20, causal=False), **ab)
    for its, mx in ((3, 20), (3, 1), (2, 0), (4, 2)) + (() if q else ((6, 4),)):
        yield Inst('loop_its%d_max%d' % (its, mx), loop, dict(m=1, its=its, max=mx, causal=True), **ab)
    for alpha in (1, 2):
        yield Inst('loop_alpha%d' % alpha, loop, dict(m=2, its=2, max=20, causal=True, alpha=alpha), **ab)
    for goal in ('adjust', 'given'):
        yield Inst('loop_' + goal, loop, dict(m=1, its=2, max=1, causal=True, goal=goal), **ab)
    for alpha in (0, 1, 2):
        for method in ('default', 'broyden', 'linear'):
            yield Inst('residual_a%d_%s' % (alpha, method), residual, dict(m=2, alpha=alpha, method=method), **op)
    yield Inst('residual_acausal', residual, dict(m=1, alpha=0, method='default', acausal=1), **op)
    for m in (1, 3):
        for alpha in (0, 1):
            for df in (0, 1):
                yield Inst('setup_m%d_a%d_%d' % (m, alpha, df), setup, dict(m=m, alpha=alpha, default=df), **ab)
    for nb in (1, 2):
        for adj, goal in ((True, True), (False, True), (False, False)):
            yield Inst('full_nb%d_adj%d_goal%d' % (nb, adj, goal), full, dict(nb=nb, adjust=adj, goal=goal), **ab)
    for sg in (1, -1):
        yield Inst('magnetic%+d' % sg, magnetic, dict(sign=sg), **ab)
