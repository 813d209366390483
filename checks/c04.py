from .common import *

EXPLAIN = ('The spin-resolved many-body Hamiltonian is built by the real code from fully symbolic '
           'one-body matrices and density interactions, its dense form is compared entry by entry '
           'with the second-quantised operator expanded independently in Fock space; the solver '
           'decides every entry over all real parameter values.')
BOUNDS = {'quick': 'n<=4 levels (all sectors for n<=3, six for n=4), spin-degenerate and '
                   'spin-resolved symmetric one-body matrices, both mean-field modes, symbolic uniform '
                   'shift and reference density; off-diagonal elements either large or exactly zero in '
                   'any pattern (n<=3), free around the 1e-7 cut for n=2',
          'thorough': 'n<=5, all sectors'}
OUTSIDE = 'non-symmetric one-body matrices; n > 5'
STUBS = ['scipy.sparse.csr_matrix: model of the CSR container (duplicates summed)']


def onebody(h, n, sd, mode):
    """Symmetric one-body matrix; mode: dense | chain | free"""
    def one(tag):
        M = h.symmetric(tag, n)
        for i in range(n):
            for j in range(i + 1, n):
                x = M[i, j]
                if mode == 'big':
                    h.assume((x > 0.001) | (x < -0.001) if h.sym else abs(x) > 0.001)
                elif mode == 'chain' and j != i + 1:
                    M[i, j] = M[j, i] = h.const(0)
                elif mode == 'chain':
                    h.assume((x > 0.001) | (x < -0.001) if h.sym else abs(x) > 0.001)
                elif mode == 'pattern':
                    if h.flag('%s_z%d%d' % (tag, i, j)):
                        M[i, j] = M[j, i] = h.const(0)
                    else:
                        h.assume((x > 0.001) | (x < -0.001) if h.sym else abs(x) > 0.001)
                elif mode == 'zero':
                    M[i, j] = M[j, i] = h.const(0)
        return M
    if not sd:
        return one('t')
    return h.world.np.array([one('tu'), one('td')])


def cut(x):
    """The builder drops off-diagonal elements of magnitude <= 1e-7."""
    if isinstance(x, R):
        c = (x > 1e-7) | (x < -1e-7)
        return core.ite(c, x, R(Fraction(0))) if isinstance(c, B) else (x if c else R(Fraction(0)))
    return x if abs(x) > 1e-7 else 0.0


def prep(h, n, hf, sd, mode, mu, z):
    H = onebody(h, n, sd, mode)
    V = h.symmetric('V', n)
    p = h.world.shared.params
    p['hfmode'] = hf
    p['mu'] = h.real('mu') if mu else 0.
    p['z'] = h.array('z', n) if z else None
    zz = p['z'] if z else [1 if hf else 0] * n
    return H, V, p['mu'], zz


def hmat(h, n, H, V, mu, zz, hf, states, mode):
    Hc = H
    if mode == 'free':
        Hc = np.array([[cut(x) if i != j else x for j, x in enumerate(r)]
                       for i, r in enumerate(H)], object)
    one = h.const(1)
    M = second_quantised(n, states, one_body_terms(Hc, n, mu), one * 0)
    dg = coulomb_diag(n, states, V, hf, zz, one)
    for i, e in enumerate(dg):
        M[i, i] = M[i, i] + e
    return M


def ham(h):
    n, nup, ndw = h.param('n'), h.param('nup'), h.param('ndw')
    hf, sd, mode = h.param('hf'), h.param('sd'), h.param('mode')
    H, V, mu, zz = prep(h, n, hf, sd, mode, h.param('mu'), h.param('z'))
    H0, V0 = H.copy(), V.copy()
    sct = sector(h, n, nup, ndw)
    ops = h.world.build_mb_ham.build_mb_ham(H, V, sct)
    D = h.world.matvec_product.todense(*ops)
    states = sz_states(n, nup, ndw)
    h.eq(np.asarray(D), hmat(h, n, H0, V0, mu, zz, hf, states, mode),
         'dense Hamiltonian is the second-quantised one')
    h.eqs([(H, H0), (V, V0)], 'parameters unchanged')


def hermit(h):
    n, nup, ndw = h.param('n'), h.param('nup'), h.param('ndw')
    H, V, mu, zz = prep(h, n, False, True, 'big', True, True)
    sct = sector(h, n, nup, ndw)
    D = np.asarray(h.world.matvec_product.todense(*h.world.build_mb_ham.build_mb_ham(H, V, sct)))
    h.eq(D, D.T, 'symmetric matrix')
    h.eq(list(D.shape), [sct.d, sct.d], 'dimension')


def instances(tier):
    q = tier == 'quick'

    def mk(n, a, b, **k):
        p = dict(n=n, nup=a, ndw=b, hf=False, sd=False, mode='big', mu=False, z=False)
        p.update(k)
        nm = 'ham_n%d_%d%d_%s%s%s%s%s' % (n, a, b, p['mode'], '_hf' if p['hf'] else '',
                                          '_sd' if p['sd'] else '', '_mu' if p['mu'] else '',
                                          '_z' if p['z'] else '')
        return Inst(nm, ham, p, timeout=240 if q else 1500)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for a in range(n + 1):
            for b in range(n + 1):
                yield mk(n, a, b, hf=False, sd=False)
                yield mk(n, a, b, hf=True, sd=True, mu=True)
                if n <= 2 or (a + b) % 2 or not q:
                    yield mk(n, a, b, sd=True, mu=True, z=True)
                    yield mk(n, a, b, hf=True, z=True)
    yield mk(2, 1, 1, mode='free')
    yield mk(2, 1, 0, mode='free', hf=True)
    yield mk(3, 1, 2, mode='pattern')
    yield mk(3, 2, 1, mode='pattern', hf=True)
    yield mk(2, 1, 1, mode='pattern', sd=True)
    yield mk(3, 1, 2, mode='pattern', sd=True, mu=True)
    yield mk(3, 1, 2, mode='zero', sd=True)
    for a, b in ((2, 2), (1, 3), (3, 2), (0, 2), (4, 1), (2, 1)):
        yield mk(4, a, b, sd=True, mode='chain')
    if not q:
        for a in range(6):
            for b in range(6):
                yield mk(5, a, b, mode='chain')
                if math.comb(5, a) * math.comb(5, b) <= 50:
                    yield mk(5, a, b, sd=True, mu=True, hf=True)
        for a in range(4):
            for b in range(4):
                yield mk(3, a, b, mode='pattern', sd=True)
    for n, a, b in ((2, 1, 1), (3, 1, 2), (3, 2, 2)):
        yield Inst('sym_n%d_%d%d' % (n, a, b), hermit, dict(n=n, nup=a, ndw=b))
