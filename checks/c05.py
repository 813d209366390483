from .common import *
from .c04 import onebody

EXPLAIN = ('Exchange and pair-hopping terms are built by the real code in the spin-resolved '
           'and in the total-charge representation from symbolic couplings and compared, entry by entry, with the '
           'operator strings expanded independently in Fock space.')
BOUNDS = {'quick': 'n<=3 levels, all sectors; exchange only, pair hopping only, both; dense, sparse and '
                   'free coupling patterns', 'thorough': 'n<=4, all sectors'}
OUTSIDE = 'non-symmetric coupling matrices; n > 4; diagonal couplings (documented as neglected)'
STUBS = ['scipy.sparse.csr_matrix: model of the CSR container (duplicates summed)']


def coupling(h, name, n, mode, diag=False):
    J = h.symmetric(name, n, zero_diag=not diag)
    for i in range(n):
        for j in range(i + 1, n):
            if mode == 'pattern' and h.flag('%sz%d%d' % (name, i, j)):
                J[i, j] = J[j, i] = h.const(0)
            elif mode == 'chain' and j != i + 1:
                J[i, j] = J[j, i] = h.const(0)
            else:
                x = J[i, j]
                h.assume((x > 0.001) | (x < -0.001) if h.sym else abs(x) > 0.001)
    return J


def nonlocal_(h):
    n, nup, ndw = h.param('n'), h.param('nup'), h.param('ndw')
    H = onebody(h, n, h.param('sd'), 'chain' if h.param('hop') else 'zero')
    U = h.symmetric('V', n)
    V = {'U': U}
    terms = one_body_terms(H, n)
    if 'x' in h.param('J'):
        V['Jx'] = coupling(h, 'Jx', n, h.param('mode'), h.param('diag'))
        terms += jx_terms(V['Jx'], n)
    if 'p' in h.param('J'):
        V['Jp'] = coupling(h, 'Jp', n, h.param('mode'), h.param('diag'))
        terms += jp_terms(V['Jp'], n)
    sct = sector(h, n, nup, ndw)
    ops = h.world.build_mb_ham.build_mb_ham(H, V, sct)
    D = np.asarray(h.world.matvec_product.todense(*ops))
    states = sz_states(n, nup, ndw)
    one = h.const(1)
    M = second_quantised(n, states, terms, one * 0)
    for i, e in enumerate(coulomb_diag(n, states, U, False, [0] * n, one)):
        M[i, i] = M[i, i] + e
    h.eq(D, M, 'dense Hamiltonian with exchange and pair hopping')


def total(h):
    """The same terms in the total-charge representation."""
    from .c06 import ham
    ham(h)


def instances(tier):
    q = tier == 'quick'
    for n in (2, 3) if q else (2, 3, 4):
        for N in range(2 * n + 1):
            for J in ('x', 'p', 'xp'):
                if n == 4 and J != 'xp':
                    continue
                yield Inst('total_n%d_N%d_J%s' % (n, N, J), total,
                           dict(n=n, N=N, J=J, hf=False, sd=0, z=0, plain=False), timeout=200 if q else 1500)
    for n in (2, 3) if q else (2, 3, 4):
        for a in range(n + 1):
            for b in range(n + 1):
                for J in ('x', 'p', 'xp'):
                    for hop in (0, 1):
                        if n == 4 and hop:
                            continue
                        yield Inst('n%d_%d%d_J%s%s' % (n, a, b, J, '_hop' if hop else ''), nonlocal_,
                                   dict(n=n, nup=a, ndw=b, J=J, hop=hop, sd=hop, mode='dense',
                                        diag=False), timeout=200 if q else 1500)
    for a, b in ((1, 1), (1, 2), (2, 1), (2, 2)):
        yield Inst('n3_%d%d_pattern' % (a, b), nonlocal_,
                   dict(n=3, nup=a, ndw=b, J='xp', hop=1, sd=0, mode='pattern', diag=False))
    yield Inst('n2_11_diag', nonlocal_, dict(n=2, nup=1, ndw=1, J='xp', hop=1, sd=0, mode='dense',
                                             diag=True))
    if q:
        for a, b in ((2, 2), (1, 3), (3, 2)):
            yield Inst('n4_%d%d_chain' % (a, b), nonlocal_,
                       dict(n=4, nup=a, ndw=b, J='xp', hop=0, sd=0, mode='chain', diag=False))
