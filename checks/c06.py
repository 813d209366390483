from .common import *
from .c04 import onebody
from .c05 import coupling

EXPLAIN = ('The total-charge representation builds its Hamiltonian by the real code on symbolic '
           'parameters; it must be the second-quantised operator without the (documented as '
           'discarded) hopping, and must agree with the union of the spin-resolved sectors.')
BOUNDS = {'quick': 'n<=3 levels, all charges; symbolic energies (spin resolved), densities, exchange and '
                   'pair hopping, both mean-field modes', 'thorough': 'n<=4'}
OUTSIDE = 'hopping (discarded by this representation, with a warning); n > 4'
STUBS = ['scipy.sparse.csr_matrix: model of the CSR container (duplicates summed)']


def params(h, n):
    H = onebody(h, n, h.param('sd'), 'zero')
    U = h.symmetric('V', n)
    V = {'U': U}
    terms = []
    if 'x' in h.param('J'):
        V['Jx'] = coupling(h, 'Jx', n, 'dense')
        terms += jx_terms(V['Jx'], n)
    if 'p' in h.param('J'):
        V['Jp'] = coupling(h, 'Jp', n, 'dense')
        terms += jp_terms(V['Jp'], n)
    if not h.param('J') and h.param('plain'):
        V = U
    p = h.world.shared.params
    p['hfmode'] = h.param('hf')
    p['mu'] = h.real('mu')
    p['z'] = h.array('z', n) if h.param('z') else None
    return H, U, V, terms, p


def ham(h):
    n, N = h.param('n'), h.param('N')
    H, U, V, terms, p = params(h, n)
    sct = sector(h, n, N)
    D = np.asarray(h.world.matvec_product.todense(*h.world.build_mb_ham.build_mb_ham(H, V, sct)))
    states = basis(2 * n, N)
    one = h.const(1)
    zz = p['z'] if h.param('z') else [1 if p['hfmode'] else 0] * n
    M = second_quantised(n, states, terms + one_body_terms(H, n, p['mu']), one * 0)
    for i, e in enumerate(coulomb_diag(n, states, U, p['hfmode'], zz, one)):
        M[i, i] = M[i, i] + e
    h.eq(D, M, 'dense Hamiltonian of the charge sector')


def agree(h):
    """Same operator in the two representations (no hopping)."""
    n, N = h.param('n'), h.param('N')
    H, U, V, terms, p = params(h, n)
    bm, mp = h.world.build_mb_ham.build_mb_ham, h.world.matvec_product
    sct = sector(h, n, N)
    DN = np.asarray(mp.todense(*bm(H, V, sct)))
    pos = {s: i for i, s in enumerate(basis(2 * n, N))}
    for nup in range(max(0, N - n), min(n, N) + 1):
        s2 = sector(h, n, nup, N - nup)
        D = np.asarray(mp.todense(*bm(H, V, s2)))
        ix = [pos[s] for s in sz_states(n, nup, N - nup)]
        h.eq(D, DN[np.ix_(ix, ix)], 'block (%d,%d)' % (nup, N - nup))
        other = [i for i in range(len(pos)) if i not in ix]
        if other:
            h.eq(DN[np.ix_(other, ix)], np.zeros((len(other), len(ix)), int),
                 'spin is conserved (%d,%d)' % (nup, N - nup))


def instances(tier):
    q = tier == 'quick'
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for N in range(2 * n + 1):
            for k, (J, hf, sd, z) in enumerate([('', 0, 0, 0), ('', 1, 1, 0), ('', 0, 1, 1),
                                                ('x', 0, 0, 0), ('p', 0, 1, 0), ('xp', 1, 1, 1)]):
                if n == 1 and J:
                    continue
                pr = dict(n=n, N=N, J=J, hf=bool(hf), sd=sd, z=z, plain=k != 1)
                nm = 'n%d_N%d_%d%s' % (n, N, k, '_sd' if sd else '')
                yield Inst('ham_' + nm, ham, pr, timeout=200 if q else 1500)
                if k in (0, 1, 5) or (k == 3 and n < 4):
                    yield Inst('agree_' + nm, agree, pr, timeout=200 if q else 1500)
