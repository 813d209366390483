from .common import *
from .c04 import onebody
from .c05 import coupling

EXPLAIN = ('The on-the-fly matrix-vector operator is executed on a fully symbolic vector with '
           'symbolic Hamiltonian entries (Cython kernels and their C helper included) and '
           'compared with the dense matrix of the same operators times the vector.')
BOUNDS = {'quick': 'n<=3 levels, all sectors, with and without exchange/pair hopping, both symmetry '
                   'representations; symbolic vector, symbolic previous content of the result',
          'thorough': 'n<=4, all sectors up to dimension 36'}
OUTSIDE = 'larger sectors; distributed runs (C09)'
STUBS = ['scipy.sparse.csr_matrix: model of the CSR container (duplicates summed)']
NATIVE = ['edpyt/psparse.pyx (interpreted from the Cython parse tree)', 'edpyt/cs_gaxpy.c (LLVM IR)']


def setup(h):
    n = h.param('n')
    H = onebody(h, n, h.param('sd'), h.param('mode'))
    U = h.symmetric('V', n)
    V = U
    if h.param('J'):
        V = {'U': U}
        if 'x' in h.param('J'):
            V['Jx'] = coupling(h, 'Jx', n, 'dense')
        if 'p' in h.param('J'):
            V['Jp'] = coupling(h, 'Jp', n, 'dense')
    sct = sector(h, n, *h.param('p'))
    return h.world.build_mb_ham.build_mb_ham(H, V, sct), sct


def matvec(h):
    ops, sct = setup(h)
    mp = h.world.matvec_product
    v = h.array('v', sct.d)
    v0 = v.copy()
    mv = mp.matvec_operator(*ops)
    r = mv(v)
    D = np.asarray(mp.todense(*ops))
    h.eq(r, np.dot(D, v0), 'operator equals the dense matrix')
    h.eq(v, v0, 'the vector is not modified')
    # a second application with a dirty preallocated result
    w = h.array('w', sct.d)
    out = h.array('junk', sct.d)
    r2 = mv(w, out)
    h.ok(r2 is out, 'the supplied result array is returned')
    h.eq(out, np.dot(D, w), 'result array is overwritten')
    h.eq(r, np.dot(D, v0), 'earlier result untouched')
    # the product of a product
    if sct.d <= 9 and len(h.param('p')) == 2:
        r3 = mv(r)
        h.eq(r3, np.dot(D, r), 'product of a product')
    h.eq(r, np.dot(D, v0), 'earlier result untouched')
    h.eq(out, np.dot(D, w), 'result array kept')
    if h.sym:
        return
    D2 = np.asarray(mp.todense(*ops))
    h.eq(D2, D, 'operators unchanged')


def adjoint(h):
    """<w|Hv> = <Hw|v> for symmetric parameters."""
    ops, sct = setup(h)
    mv = h.world.matvec_product.matvec_operator(*ops)
    v, w = h.array('v', sct.d), h.array('w', sct.d)
    h.eq(np.dot(w, mv(v)), np.dot(mv(w), v), 'operator is self-adjoint')


def instances(tier):
    q = tier == 'quick'
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for a in range(n + 1):
            for b in range(n + 1):
                if math.comb(n, a) * math.comb(n, b) > 36:
                    continue
                for J, mode, sd in (('', 'big', 0), ('', 'chain', 1), ('xp', 'chain', 0)):
                    if n == 1 and J:
                        continue
                    yield Inst('mv_n%d_%d%d_%s%s' % (n, a, b, mode, J), matvec,
                               dict(n=n, p=(a, b), J=J, mode=mode, sd=sd), timeout=200 if q else 2000)
    for n in (2, 3):
        for N in range(2 * n + 1):
            yield Inst('mvN_n%d_%d' % (n, N), matvec, dict(n=n, p=(N,), J='xp', mode='zero', sd=1),
                       timeout=200)
    yield Inst('mvN_n2_2_plain', matvec, dict(n=2, p=(2,), J='', mode='zero', sd=1))
    for n, p in ((2, (1, 1)), (3, (1, 2)), (3, (2, 2))):
        yield Inst('adj_n%d_%d%d' % ((n,) + p), adjoint, dict(n=n, p=p, J='xp', mode='big', sd=1),
                   timeout=200)
