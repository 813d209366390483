from .common import *
from .c10 import full_op

EXPLAIN = ('The exact Green functions are evaluated for symbolic spectra, symbolic eigenvectors, '
           'symbolic inverse temperature and a symbolic complex frequency and compared with the '
           'Lehmann sum written from the definition, for both spins, every site and site pair.')
BOUNDS = {'quick': 'n=1,2 sites, complete spectrum (all sectors, all states), every position, both '
                   'spins; n=3 with one or two states per sector',
          'thorough': 'n=3 with up to three states per sector'}
OUTSIDE = 'more sites; the diagonalisation itself (C16); exp, 1/z and products are abstracted to ' \
          'uninterpreted functions and free monomials, so only their congruence is used'


def space(h, n, cap=99):
    es, t = {}, 0
    for a in range(n + 1):
        for b in range(n + 1):
            s = sector(h, n, a, b)
            k = min(cap, s.d)
            if h.inst.params.get('cold'):     # a given spectrum, whose thermal weights span many decades
                s.eigvals = h.wrap(np.array([h.const(Fraction((7 * (t + i)) % 20, 2)) for i in range(k)]))
                t += k
            else:
                s.eigvals = h.array('E%d%d' % (a, b), k)
            s.eigvecs = h.array('v%d%d' % (a, b), s.d, k)
            es[a, b] = s
    return es


def h_exp(h, x):
    if hasattr(x, 'exp'):
        return x.exp()
    try:
        return math.exp(x)
    except OverflowError:
        return float('inf')


def lehmann(h, es, n, beta, egs, p1, p2, ispin, z, hole=True, part=True):
    """1/Z sum <I|c_p1|J><J|c+_p2|I> (e^-bEI + e^-bEJ) / (z - EJ + EI)"""
    Z, G = 0, 0
    for key, s in es.items():
        for E in s.eigvals:
            Z = Z + h_exp(h, -beta * (E - egs))
    for key, sI in es.items():
        kJ = list(key)
        kJ[ispin] += 1
        if kJ[ispin] > n or tuple(kJ) not in es:
            continue
        sJ = es[tuple(kJ)]
        A = np.dot(np.asarray(sJ.eigvecs).T, np.dot(full_op(n, list(key), kJ, ispin, p2, 'cdg'), np.asarray(sI.eigvecs)))
        Bm = A if p1 == p2 else \
            np.dot(np.asarray(sJ.eigvecs).T, np.dot(full_op(n, list(key), kJ, ispin, p1, 'cdg'), np.asarray(sI.eigvecs)))
        for j in range(len(sJ.eigvals)):
            for i in range(len(sI.eigvals)):
                EI, EJ = sI.eigvals[i], sJ.eigvals[j]
                w = h_exp(h, -beta * (EJ - egs)) + h_exp(h, -beta * (EI - egs))
                G = G + A[j, i] * Bm[j, i] * w * recip(z - (EJ - EI))
    return G, Z


def recip(z):
    return z.recip() if hasattr(z, 'recip') else 1 / z


def setup(h):
    n = h.param('n')
    es = space(h, n, h.param('cap'))
    beta = h.const(2) if h.inst.params.get('cold') else h.real('beta', 0, 3)
    egs = h.const(0) if h.inst.params.get('cold') else h.real('egs')
    e, eta = h.array('w', 2), h.real('eta', 0.1, 2)
    z = [Cx(x, eta) if h.sym else complex(x, eta) for x in e]
    return n, es, beta, egs, e, eta, z


def diag(h):
    n, es, beta, egs, e, eta, z = setup(h)
    H, V = h.wrap(np.array([[h.const(0)] * n] * n, object)), h.wrap(np.array([[h.const(0)] * n] * n, object))
    ispin, pos = h.param('ispin'), h.param('pos')
    g = h.world.gf_exact.build_gf_exact(H, V, es, beta, egs, pos, ispin)
    got = g(e, eta)
    want = []
    for x in z:
        G, Z = lehmann(h, es, n, beta, egs, pos, pos, ispin, x)
        want.append(G * recip(Z))
    h.eq(got, want, 'G equals its Lehmann representation')
    one = g(e[0], eta)
    h.eq(np.asarray(one).reshape(-1), want[:1], 'scalar energies are accepted')


def defaults(h):
    """Arguments left out: first site, spin up, energies as they are."""
    n, es, beta, egs, e, eta, z = setup(h)
    H, V = h.wrap(np.array([[h.const(0)] * n] * n, object)), h.wrap(np.array([[h.const(0)] * n] * n, object))
    if h.param('full'):
        got = h.world.gf2_exact.build_gf2_exact(H, V, es, beta)(e, eta)[0, 1]
    else:
        got = h.world.gf_exact.build_gf_exact(H, V, es, beta)(e, eta)
    want = []
    for x in z:
        G, Z = lehmann(h, es, n, beta, h.const(0), 0, int(h.param('full')), 0, x)
        want.append(G * recip(Z))
    h.eq(got, want, 'first site, spin up')


def matrix(h):
    n, es, beta, egs, e, eta, z = setup(h)
    H, V = h.wrap(np.array([[h.const(0)] * n] * n, object)), h.wrap(np.array([[h.const(0)] * n] * n, object))
    ispin = h.param('ispin')
    g = h.world.gf2_exact.build_gf2_exact(H, V, es, beta, egs, ispin)
    got = g(e, eta)
    h.ok(got.shape == (n, n, 2), 'shape of the matrix Green function')
    for p1 in range(n):
        for p2 in range(n):
            want = []
            for x in z:
                G, Z = lehmann(h, es, n, beta, egs, p1, p2, ispin, x)
                want.append(G * recip(Z))
            h.eq(got[p1, p2], want, 'G_ij equals its Lehmann representation')


def instances(tier):
    q = tier == 'quick'
    kw = dict(abstract_mul='opaque', abstract_recip=True, timeout=300 if q else 1500)
    for n, cap in ((1, 9), (2, 9), (3, 1), (3, 9)) + (() if q else ((4, 1), (4, 3))):
        for ispin in (0, 1):
            for pos in range(n):
                if q and n == 3 and cap == 9 and pos != 1:
                    continue
                yield Inst('gf_n%d_k%d_s%d_p%d' % (n, cap, ispin, pos), diag,
                           dict(n=n, cap=cap, ispin=ispin, pos=pos), **kw)
            if n < 3 or cap == 1 or not q:
                yield Inst('gf2_n%d_k%d_s%d' % (n, cap, ispin), matrix,
                           dict(n=n, cap=cap, ispin=ispin), **kw)
    for ispin in (0, 1):
        yield Inst('cold_n2_s%d' % ispin, diag, dict(n=2, cap=9, ispin=ispin, pos=ispin, cold=1), **kw)
        yield Inst('cold2_n2_s%d' % ispin, matrix, dict(n=2, cap=9, ispin=ispin, cold=1), **kw)
    for full in (False, True):
        yield Inst('defaults_%d' % full, defaults, dict(n=2, cap=9, full=full), **kw)
