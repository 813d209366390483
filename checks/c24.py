from .common import *
from . import c22, c23
from .c11 import h_exp, recip
from .c22 import charges, spins, leads

EXPLAIN = ('The regularised cotunnelling integrals are evaluated with the polygamma function as an '
           'uninterpreted function that only has its conjugation symmetry, and compared with the '
           'closed forms of the single-pole and two-pole integrals; sums of two and four poles must '
           'expand the squared amplitude exactly, and the rates of both modules must pass the poles, '
           'weights and potentials of their own amplitude to them.')
BOUNDS = {'quick': 'all weights, pole positions, potentials and temperatures; one, two and four poles; n=1 '
                   'complete and n=2 with four virtual states; the zero-bias limit and the tiny-bias branch',
          'thorough': 'larger budgets'}
OUTSIDE = 'that the closed forms equal the integrals (analysis, checked by hand in DESIGN.md); coinciding poles; ' \
          'numerical accuracy of polygamma; the trapezoid rule is compared term by term'


def psi_conc(n, z):
    import mpmath
    return complex(mpmath.psi(n, z))


def psi_sym(n, z):
    """Re psi_n(1/2+iy) is even in y, Im is odd."""
    n = int(n)
    y = z.im
    half = z.re - Fraction(1, 2)
    if not (half.is_const and half.n == 0):
        return Cx(core.uf('psi%d_re' % n, z.re, z.im), core.uf('psi%d_im' % n, z.re, z.im))
    return Cx(core.uf('psi%d_even' % n, y * y), y * core.uf('psi%d_odd' % n, y * y))


def world(h):
    if h._w is None:
        h._w = h.new_world(stubs={'mpmath.psi': psi_sym if h.sym else psi_conc})
    return h._w


def psi(h, n, x, beta):
    """psi_n(1/2 + i beta x / 2 pi)"""
    y = beta * x / (2 * h.const(math.pi))
    return psi_sym(n, Cx(h.const(0.5), y)) if h.sym else psi_conc(n, 0.5 + 1j * y)


def nb(h, x):
    return recip(h_exp(h, x) - 1)


def regular(h, mu, beta):
    x = (mu[1] - mu[0]) * beta
    h.assume(abs(x) >= (1e-15 if h.sym else 1e-3))
    h.assume(h_exp(h, x) != 1)
    return x


def M1(h, e, mu, beta):
    """integral of f(z-mu0)(1-f(z-mu1))/(z-e)^2"""
    x = (mu[1] - mu[0]) * beta
    return beta / (2 * h.const(math.pi)) * nb(h, x) * (psi(h, 1, mu[1] - e, beta) - psi(h, 1, mu[0] - e, beta)).imag


def M2(h, a, b, mu, beta):
    """integral of f(z-mu0)(1-f(z-mu1))/((z-a)(z-b))"""
    x = (mu[1] - mu[0]) * beta
    re = lambda u, v: psi(h, 0, u - v, beta).real
    return nb(h, x) * recip(a - b) * (re(mu[1], a) - re(mu[0], a) - re(mu[1], b) + re(mu[0], b))


def square(h, Y, E, mu, beta):
    """integral of f (1-f) (sum Y/(z-E))^2"""
    t = 0
    for k in range(len(Y)):
        t = t + Y[k] * Y[k] * M1(h, E[k], mu, beta)
        for l in range(k):
            t = t + 2 * (Y[k] * Y[l]) * M2(h, E[k], E[l], mu, beta)
    return t


def data(h, k):
    world(h)
    Y, E = h.array('Y', k), h.array('E', k)
    mu = [h.real('mu0'), h.real('mu1')]
    beta = h.real('beta', 0.1, 3)
    for i in range(k):
        for j in range(i):
            h.assume(abs(E[i] - E[j]) > 1e-3)
    return Y, E, mu, beta


def gammas(h):
    k = h.param('k')
    Y, E, mu, beta = data(h, k)
    regular(h, mu, beta)
    m = h.world.integrals
    got = {1: m.Gamma1, 2: m.Gamma2, 4: m.Gamma4}[k](*list(Y), *list(E), mu, beta)
    h.eq(got, square(h, Y, E, mu, beta), 'integral of the squared sum of %d poles' % k)


def single(h):
    Y, E, mu, beta = data(h, 2)
    regular(h, mu, beta)
    m = h.world.integrals
    h.eq(m.I1(Y[0], E[0], mu, beta), Y[0] * Y[0] * M1(h, E[0], mu, beta), 'single-pole integral')
    h.eq(m.I2(Y[0], Y[1], E[0], E[1], mu, beta), Y[0] * Y[1] * M2(h, E[0], E[1], mu, beta), 'two-pole integral')


def limit(h):
    """equal potentials"""
    Y, E, mu, beta = data(h, 2)
    m = h.world.integrals
    mu = [mu[0], mu[0]]
    pi = h.const(math.pi)
    h.eq(m.I1(Y[0], E[0], mu, beta), Y[0] * Y[0] * beta / h.const((2 * math.pi) ** 2) * psi(h, 2, mu[0] - E[0], beta).real,
         'zero-bias limit of the single-pole integral')
    im = lambda e: psi(h, 1, mu[0] - e, beta).imag
    h.eq(m.I2(Y[0], Y[1], E[0], E[1], mu, beta),
         Y[0] * Y[1] / (2 * pi) * recip(E[0] - E[1]) * (im(E[1]) - im(E[0])), 'zero-bias limit of the two-pole integral')


def tiny(h):
    """1e-16 <= |x| < 1e-15 replaces 1/(e^x-1) by its expansion"""
    Y, E, mu, beta = data(h, 2)
    x = (mu[1] - mu[0]) * beta
    h.assume(abs(x) >= 1e-16)
    h.assume(abs(x) < 1e-15)
    m = h.world.integrals
    n = recip(x) - Fraction(1, 2) + x * Fraction(1, 12) - x ** 3 * Fraction(1, 720) if h.sym else 1 / x - .5
    pi = h.const(math.pi)
    got = m.I1(Y[0], E[0], mu, beta)
    want = Y[0] * Y[0] * beta / (2 * pi) * n * (psi(h, 1, mu[1] - E[0], beta) - psi(h, 1, mu[0] - E[0], beta)).imag
    re = lambda u, v: psi(h, 0, u - v, beta).real
    got2 = m.I2(Y[0], Y[1], E[0], E[1], mu, beta)
    want2 = Y[0] * Y[1] * recip(E[0] - E[1]) * n * (re(mu[1], E[0]) - re(mu[0], E[0]) - re(mu[1], E[1]) + re(mu[0], E[1]))
    if h.sym:
        lo = 1e-25
        d, d2 = got - want, got2 - want2
        h.eq(d, h.const(0), 'expansion at tiny bias')
        h.eq(d2, h.const(0), 'expansion at tiny bias')
    else:
        h.ok(abs(got - want) < 1, 'expansion at tiny bias')


def poles_nl(h, es, n, N, s0, s1, A, ext, inj, f, i):
    Y, P = [], []
    E = es[(N,)].eigvals
    op = c23.op_charge
    s = lambda a, l: sum((A[l][k] * a[k] for k in range(n)), 0)
    if (N + 1,) in es:
        up = [op(es, n, N, N + 1, k, s1, 'cdg') for k in range(n)]
        dn = [op(es, n, N + 1, N, k, s0, 'c') for k in range(n)]
        for J, EJ in enumerate(es[(N + 1,)].eigvals):
            Y.append(s([x[f, J] for x in dn], inj) * s([x[J, i] for x in up], ext))
            P.append(EJ - E[f])
    if (N - 1,) in es:
        dn = [op(es, n, N, N - 1, k, s0, 'c') for k in range(n)]
        up = [op(es, n, N - 1, N, k, s1, 'cdg') for k in range(n)]
        for J, EJ in enumerate(es[(N - 1,)].eigvals):
            Y.append(s([x[f, J] for x in up], ext) * s([x[J, i] for x in dn], inj))
            P.append(E[i] - EJ)
    return Y, P


def exact_nl(h):
    """cotnl.Sigma.exact integrates the squared amplitude of the same object"""
    n, N = h.param('n'), h.param('N')
    m = world(h).cotnl
    es = charges(h, n, h.param('cap'), [x for x in (N - 1, N, N + 1) if 0 <= x <= 2 * n], h.param('sparse'))
    A, mu, _ = leads(h, n)
    beta = h.real('beta2', 0.1, 3)
    ext, inj = h.param('leads')
    d = m.build_transition_elements(n, es, N)
    for (F, I_), sig in sorted(d.items()):
        if h.param('one') and (F[1], I_[1]) != h.param('one'):
            continue
        for s in sig:
            m2 = [mu[ext] - s.dE, mu[inj]]
            Y, P = poles_nl(h, es, n, N, s.spins[0], s.spins[1], A, ext, inj, F[1], I_[1])
            if len(P) not in (1, 2, 4):
                h.raises(NotImplementedError, lambda: s.exact(A, ext, inj, beta, mu), 'unsupported number of virtual states')
                continue
            regular(h, m2, beta)
            for a in range(len(P)):
                for b in range(a):
                    h.assume(abs(P[a] - P[b]) > 1e-3)
            h.eq(s.exact(A, ext, inj, beta, mu), square(h, Y, P, m2, beta), 'exact cotunnelling integral')


def numeric_nl(h):
    """cotnl.Sigma.integrate: trapezoid rule on a window of 4/beta around both potentials"""
    n, N = h.inst.params.get('n', 1), h.param('N')
    m = world(h).cotnl
    pts = 5
    seen = []

    def linspace(a, b, num=50, endpoint=True, **k):
        seen.append((a, b, num, endpoint))
        return h.wrap(np.array([a + (b - a) * Fraction(q, pts - 1) if h.sym else a + (b - a) * q / (pts - 1)
                                for q in range(pts)], object))
    patch_np(m, linspace=linspace)
    F, I_ = h.param('states')
    es = charges(h, n, 1 + max(F, I_), [x for x in (N - 1, N, N + 1) if 0 <= x <= 2 * n],
                 h.inst.params.get('sparse'))
    A, mu, _ = leads(h, n)
    beta = h.real('beta2', 0.1, 3)
    d = m.build_transition_elements(n, es, N)
    s = d[(N, F), (N, I_)][h.param('pair')]
    ext, inj = 0, 1
    E = es[(N,)].eigvals
    a, b = mu[ext] - (E[F] - E[I_]), mu[inj]
    got = s.integrate(A, ext, inj, beta, mu)
    lo = a if a < b else b
    hi = b if a < b else a
    h.ok(len(seen) == 1 and seen[0][2] >= 100 and seen[0][3], 'grid')
    h.eq(seen[0][0], lo - 4 / beta, 'lower end of the window')
    h.eq(seen[0][1], hi + 4 / beta, 'upper end of the window')
    lo, hi = seen[0][:2]
    z = [lo + (hi - lo) * (Fraction(q, pts - 1) if h.sym else q / (pts - 1)) for q in range(pts)]
    f = lambda x: recip(h_exp(h, x) + 1)
    Y, P = poles_nl(h, es, n, N, s.spins[0], s.spins[1], A, ext, inj, F, I_)
    y = []
    for q in z:
        am = sum((Y[k] * recip(P[k] - q) for k in range(len(Y))), h.const(0))
        y.append(am * am * f(beta * (q - a)) * f(-beta * (q - b)))
    want = 0
    for q in range(pts - 1):
        want = want + (z[q + 1] - z[q]) * (y[q] + y[q + 1]) / 2
    h.eq(got, want, 'trapezoid sum of amplitude^2 f (1-f)')


def exact_sz(h):
    """cotunneling: default (exact) integral"""
    n, pI = h.param('n'), tuple(h.param('p'))
    m = world(h).cotunneling
    es = spins(h, n, h.param('cap'), h.inst.params.get('sparse'))
    from collections import defaultdict
    d = defaultdict(list)
    m.project_sector(n, pI[0], pI[1], es, d)
    A, mu, _ = leads(h, n)
    beta = h.real('beta2', 0.1, 3)
    ext, inj = h.param('leads')
    tg = c23.targets(n, pI, c23.ALL)
    for (F, I_), sig in sorted(d.items()):
        for s, (si, sj) in zip(sig, tg[F[:2]]):
            _, parts = c23.amp_spin(h, es, n, pI, si, sj, A, ext, inj, h.const(0), F[2], I_[2])
            Y, P = [y for _, y, _ in parts], [e for _, _, e in parts]
            m2 = [mu[ext] - s.dE, mu[inj]]
            regular(h, m2, beta)
            for a in range(len(P)):
                for b in range(a):
                    h.assume(abs(P[a] - P[b]) > 1e-3)
            label = 'exact integral, one virtual state' if h.param('cap') == 1 else 'exact integral, several virtual states'
            h.eq(s.integrate(A, ext, inj, beta, mu), square(h, Y, P, m2, beta), label)


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul=True, abstract_recip=True, timeout=150 if q else 1200)
    for k in (1, 2, 4):
        yield Inst('gamma%d' % k, gammas, dict(k=k), **ab)
    yield Inst('single', single, {}, **ab)
    yield Inst('limit', limit, {}, **ab)
    yield Inst('tiny', tiny, {}, **ab)
    for l in ((0, 1), (1, 0)):
        for N in range(3):
            yield Inst('exact_nl_n1_N%d_%d%d' % ((N,) + l), exact_nl, dict(n=1, N=N, cap=1, sparse=None, leads=l, one=None), **ab)
        for p in ((0, 0), (1, 0), (0, 1), (1, 1)):
            yield Inst('exact_sz_n1_%d%d_%d%d' % (p + l), exact_sz, dict(n=1, p=p, cap=1, leads=l), **ab)
    yield Inst('exact_nl_n1_N1_c2', exact_nl, dict(n=1, N=1, cap=2, sparse=1, leads=(0, 1), one=(0, 1)), **ab)
    yield Inst('exact_nl_n1_N0_c2', exact_nl, dict(n=1, N=0, cap=2, sparse=1, leads=(0, 1), one=None), **ab)
    yield Inst('exact_nl_n2_N2_c2', exact_nl, dict(n=2, N=2, cap=2, sparse=1, leads=(0, 1), one=(1, 0)), **ab)
    yield Inst('exact_nl_n2_N1_c3', exact_nl, dict(n=2, N=1, cap=3, sparse=1, leads=(0, 1), one=(1, 0)), **ab)
    for N in (0, 1, 2):
        for pair in (0, 1, 2):
            yield Inst('numeric_nl_N%d_%d' % (N, pair), numeric_nl, dict(N=N, pair=pair, states=(0, 0)), **ab)
    for N in (1, 2):
        yield Inst('numeric_nl_n2_N%d' % N, numeric_nl, dict(n=2, N=N, pair=N, states=(0, 0), sparse=2), **ab)
    for st in ((0, 1), (1, 0)):
        yield Inst('numeric_nl_N1_%d%d' % st, numeric_nl, dict(N=1, pair=2, states=st), **ab)
    yield Inst('exact_sz_n2_multi', exact_sz, dict(n=2, p=(0, 0), cap=2, sparse=2, leads=(0, 1)), **ab)
