from .common import *

EXPLAIN = ('The transition matrix elements <J|c|I>, <J|c+|I> computed by the exact, Lanczos and '
           'transport projections are evaluated on fully symbolic eigenvectors and compared with an '
           'independent second-quantised matrix between the two sectors.')
BOUNDS = {'quick': 'n<=4 sites, all sectors and positions for n<=3, 1..3 symbolic eigenvectors per '
                   'sector; total-charge sectors of n<=2 sites (4 spin orbitals), some of n=3',
          'thorough': 'n<=5 sites, n<=3 total-charge'}
OUTSIDE = 'larger sectors; orthonormality of the eigenvectors is not used'


def spin_op(n, pI, pJ, pos, kind):
    """Matrix of c/c+ on one spin species, <J|op|I>."""
    bI, bJ = basis(n, pI), basis(n, pJ)
    M = np.zeros((len(bJ), len(bI)), int)
    for i, s in enumerate(bI):
        f, sg = (f_c if kind == 'c' else f_cdg)(s, pos, n)
        if f is not None:
            M[bJ.index(f), i] = sg
    return M


def setup(h):
    n, pI, ispin, kind = h.param('n'), list(h.param('p')), h.param('ispin'), h.param('kind')
    pJ = list(pI)
    pJ[ispin] += 1 if kind == 'cdg' else -1
    I_, J_ = sector(h, n, *pI), sector(h, n, *pJ)
    kI, kJ = min(h.param('kI'), I_.d), min(h.param('kJ'), J_.d)
    I_.eigvals, J_.eigvals = h.array('eI', kI), h.array('eJ', kJ)
    I_.eigvecs, J_.eigvecs = h.array('vI', I_.d, kI), h.array('vJ', J_.d, kJ)
    op = getattr(h.world.operators, kind)
    return n, pI, pJ, ispin, kind, I_, J_, op


def full_op(n, pI, pJ, ispin, pos, kind):
    """index = iup + dup*idw"""
    M = spin_op(n, pI[ispin], pJ[ispin], pos, kind)
    other = math.comb(n, pI[1 - ispin])
    return np.kron(np.eye(other, dtype=int), M) if ispin == 0 else np.kron(M, np.eye(other, dtype=int))


def exact(h):
    n, pI, pJ, ispin, kind, I_, J_, op = setup(h)
    f = h.fn('gf_exact.project_exact_' + ('up', 'dw')[ispin])
    vI, vJ = I_.eigvecs.copy(), J_.eigvecs.copy()
    for pos in range(n):
        M = full_op(n, pI, pJ, ispin, pos, kind)
        want = np.dot(np.asarray(vJ).T, np.dot(M, np.asarray(vI)))
        h.eq(f(pos, n, op, I_, J_), want, '<J|op|I> between eigenvectors')
    h.eq(I_.eigvecs, vI, 'eigenvectors unchanged')
    h.eq(J_.eigvecs, vJ, 'eigenvectors unchanged')


def lanczos(h):
    n, pI, pJ, ispin, kind, I_, J_, op = setup(h)
    f = h.fn('gf_lanczos.project_' + ('up', 'dw')[ispin])
    vI = I_.eigvecs.copy()
    for pos in range(n):
        M = full_op(n, pI, pJ, ispin, pos, kind)
        want = np.dot(M, np.asarray(vI)).T
        h.eq(f(pos, n, op, I_, J_), want, 'op|I> in the basis of the arrival sector')
    h.eq(I_.eigvecs, vI, 'eigenvectors unchanged')


def charge(h):
    n, N, kind = h.param('n'), h.param('N'), h.param('kind')
    M_ = N + (1 if kind == 'cdg' else -1)
    I_, J_ = sector(h, n, N), sector(h, n, M_)
    kI, kJ = min(2, I_.d), min(2, J_.d)
    I_.eigvals, J_.eigvals = h.array('eI', kI), h.array('eJ', kJ)
    I_.eigvecs, J_.eigvecs = h.array('vI', I_.d, kI), h.array('vJ', J_.d, kJ)
    op = getattr(h.world.operators, kind)
    f = h.fn('cotnl.project')
    for spin in range(2):
        for pos in range(n):
            M = spin_op(2 * n, N, M_, pos + spin * n, kind)
            want = np.dot(np.asarray(J_.eigvecs).T, np.dot(M, np.asarray(I_.eigvecs)))
            h.eq(f(spin, pos, op, n, I_, J_), want, '<J|op|I> between charge sectors')


def instances(tier):
    q = tier == 'quick'
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for a in range(n + 1):
            for b in range(n + 1):
                for ispin in (0, 1):
                    for kind in ('c', 'cdg'):
                        t = [a, b][ispin] + (1 if kind == 'cdg' else -1)
                        if not 0 <= t <= n:
                            continue
                        if n >= 4 and (a + 2 * b + ispin + (kind == 'c')) % (4 if n == 4 else 6):
                            continue
                        k = dict(n=n, p=(a, b), ispin=ispin, kind=kind)
                        tag = 'n%d_%d%d_%d%s' % (n, a, b, ispin, kind)
                        big = n >= 4
                        yield Inst('ex_' + tag, exact, dict(kI=1 if big else 2, kJ=1 if big else 3, **k),
                                   abstract_mul=True, timeout=200)
                        yield Inst('lz_' + tag, lanczos, dict(kI=1 if big else 2, kJ=1, **k), timeout=200)
    for n in (1, 2) if q else (1, 2, 3):
        for N in range(2 * n + 1):
            for kind in ('c', 'cdg'):
                if 0 <= N + (1 if kind == 'cdg' else -1) <= 2 * n:
                    yield Inst('ch_n%d_%d%s' % (n, N, kind), charge, dict(n=n, N=N, kind=kind),
                               abstract_mul=True, timeout=200)
    if q:
        yield Inst('ch_n3_3c', charge, dict(n=3, N=3, kind='c'), abstract_mul=True, timeout=200)
        yield Inst('ch_n3_1cdg', charge, dict(n=3, N=1, kind='cdg'), abstract_mul=True, timeout=200)
