from .common import *
from .c04 import onebody
from symx import mpi

EXPLAIN = ('The ranks of a simulated MPI job run the real code; the vectors and Hamiltonian entries '
           'are symbolic, and the concatenated distributed result must equal the serial one: '
           'transposition round trip and layout, Hamiltonian product, Lanczos step and '
           'tridiagonalisation, spin occupations.  Disagreeing or missing collectives are '
           'deadlocks and fail the check.')
BOUNDS = {'quick': '1..4 ranks, slabs up to 4x12 (transposition), half-filled sectors of n<=4 levels '
                   '(product), vectors up to 6 (Lanczos, occupations)',
          'thorough': 'up to 6 ranks, slabs up to 6x18, n<=5 sectors'}
OUTSIDE = 'point-to-point transports and MPI implementation; sectors the code rejects (unequal spin dimensions)'
STUBS = ['mpi4py communicator: deterministic simulation of the collectives with mpi4py buffer rules',
         'LAPACK stebz (ground state of the tridiagonal matrix): free value, same on every rank']


def run(h, size, fn):
    g = mpi.Group(size)
    out = g.run(fn)
    return out, g


def transpose(h):
    P, m = h.param('P'), h.param('m')
    n = P * m
    vt = h.world.vector_transpose
    G = (h.carray if h.param('cplx') else h.array)('a', n, n)
    G0 = np.array(G, copy=True)

    def rank(comm):
        r = comm.rank
        a = G[r * m:(r + 1) * m].copy()
        b = vt.collect_dw(a, comm)
        mid = np.array(b, copy=True)
        c = vt.collect_up(b, comm)
        return mid, c
    out, g = run(h, P, rank)
    for r, (mid, c) in enumerate(out):
        h.eq(mid, np.asarray(G0)[:, r * m:(r + 1) * m], 'column slab after the forward transposition')
        h.eq(c, np.asarray(G0)[r * m:(r + 1) * m], 'row slab restored by the backward transposition')


def reject(h):
    P, m, n = h.param('P'), h.param('m'), h.param('n')
    vt = h.world.vector_transpose

    def rank(comm):
        got = []
        for f, shape in ((vt.collect_dw, (m, n)), (vt.collect_up, (n, m))):
            a = h.array('x%d' % comm.rank, *shape)
            try:
                f(a, comm)
                got.append(False)
            except (AssertionError, ValueError):
                got.append(True)
        return got
    out, g = run(h, P, rank)
    h.ok(all(all(x) for x in out), 'slabs that cannot be exchanged are rejected by every rank')


def product(h):
    P, n, p = h.param('P'), h.param('n'), h.param('p')
    H = onebody(h, n, h.param('sd'), h.param('mode'))
    V = h.symmetric('V', n)
    sct = sector(h, n, p, p)
    ops = h.world.build_mb_ham.build_mb_ham(H, V, sct)
    mp = h.world.matvec_product
    d = sct.d
    v = h.array('v', d)
    want = mp.matvec_operator(*ops)(v.copy())
    k = d // P

    def rank(comm):
        sl = slice(comm.rank * k, (comm.rank + 1) * k)
        mv = mp.matvec_operator(ops[0][sl], ops[1], ops[2], comm=comm)
        x = v[sl].copy()
        r = mv(x)
        r2 = mv(x)
        return r, x, r2
    out, g = run(h, P, rank)
    cat = lambda i: np.concatenate([np.asarray(o[i]).reshape(-1) for o in out])
    h.eq(cat(0), want, 'distributed product')
    h.eq(cat(1), v, 'local vector unchanged')
    h.eq(cat(2), want, 'second application')


def bad_product(h):
    """Rejected configurations are rejected by every rank, without a hang."""
    n, a, b, P = h.param('n'), h.param('a'), h.param('b'), h.param('P')
    H = onebody(h, n, False, 'chain')
    V = h.symmetric('V', n)
    sct = sector(h, n, a, b)
    ops = h.world.build_mb_ham.build_mb_ham(H, V, sct)

    def rank(comm):
        try:
            h.world.matvec_product.matvec_operator(*ops, comm=comm)
        except (NotImplementedError, ValueError):
            return True
        return False
    out, g = run(h, P, rank)
    h.ok(all(out), 'unsupported distribution rejected on every rank')


def step(h):
    """One Lanczos step on a distributed vector."""
    P, d = h.param('P'), h.param('d')
    lz = h.world.lanczos
    A = h.symmetric('A', d)
    v, l = h.array('v', d), h.array('l', d)
    h.assume(sum_sq(v) > (0 if h.sym else 1e-3))
    k = d // P
    a, b, vv, ww = lz.sl_step(lambda x: A.dot(x))(v.copy(), l.copy())
    h.eq(b * b, sum_sq(v), 'norm of the vector')
    h.eq(vv * b, v, 'normalised vector')
    Av = np.dot(np.asarray(A), np.asarray(vv))
    h.eq(a, np.dot(np.asarray(vv), Av), 'diagonal coefficient')
    h.eq(ww, Av - a * np.asarray(vv) - b * np.asarray(l), 'next direction')

    def rank(comm):
        sl = slice(comm.rank * k, (comm.rank + 1) * k)

        def mv(x):
            full = np.concatenate([np.asarray(y) for y in comm.allgather(x.copy())])
            r = np.dot(np.asarray(A), full)[sl]
            return h.wrap(r) if h.sym else r
        return lz.sl_step(mv, comm)(v[sl].copy(), l[sl].copy())
    out, g = run(h, P, rank)
    for o in out:
        h.eqs([(o[0], a), (o[1], b)], 'coefficients equal the serial ones on every rank')
    h.eq(np.concatenate([np.asarray(o[2]) for o in out]), vv, 'distributed normalised vector')
    h.eq(np.concatenate([np.asarray(o[3]) for o in out]), ww, 'distributed next vector')


def sum_sq(v):
    return sum((x * x for x in v[1:]), v[0] * v[0])


def tridiag(h):
    """Tridiagonalisation: same coefficients, same number of steps."""
    P, d, maxn = h.param('P'), h.param('d'), h.param('maxn')
    egs = h.real('egs')
    e = h.wrap(np.array([egs], object))
    w = h.new_world(stubs={'lapack.stebz': lambda *a, **k: (1, e, None, None, 0)})
    lz = w.lanczos
    A = h.symmetric('A', d)
    for i in range(d):
        for j in range(d):
            if abs(i - j) > 1:
                A[i, j] = h.const(0)
    v = h.array('v', d)
    v[1:] = h.const(0)
    h.assume(v[0] > (0 if h.sym else 1e-2))
    for i in range(d - 1):
        h.assume(A[i, i + 1] > (0 if h.sym else 1e-2))
    a, b = lz.build_sl_tridiag(lambda x: A.dot(x), v.copy(), maxn=maxn, delta=0., ND=h.param('ND'))
    k = d // P

    def rank(comm):
        sl = slice(comm.rank * k, (comm.rank + 1) * k)

        def mv(x):
            full = np.concatenate([np.asarray(y) for y in comm.allgather(x.copy())])
            r = np.dot(np.asarray(A), full)[sl]
            return h.wrap(r) if h.sym else r
        return lz.build_sl_tridiag(mv, v[sl].copy(), maxn=maxn, delta=0., ND=h.param('ND'), comm=comm)
    out, g = run(h, P, rank)
    for o in out:
        h.eqs([(o[0], a), (o[1], b)], 'coefficients equal the serial ones on every rank')


def occ(h):
    P, n, pu, pd, nev = h.param('P'), h.param('n'), h.param('pu'), h.param('pd'), h.param('nev')
    sct = sector(h, n, pu, pd)
    up, dw = sct.states.up, sct.states.dw
    order = h.param('order')
    ev = h.array('e', sct.d, nev)
    if order == 'F':
        ev = np.asfortranarray(ev)
        ev = h.wrap(np.asarray(ev)) if h.sym else ev
    co = h.array('c', nev) if h.param('coeffs') else None
    f = h.world.observs.get_evecs_occupation
    want = f(ev.copy(order='K'), up, dw, n, co)
    k = sct.d // P

    def rank(comm):
        x = ev[comm.rank * k:(comm.rank + 1) * k].copy(order='K')
        if order == 'F':
            x = np.asfortranarray(x)
            x = h.wrap(np.asarray(x)) if h.sym else x
        return f(x, up, dw, n, co, comm)
    out, g = run(h, P, rank)
    for o in out:
        h.eqs([(o[0], want[0]), (o[1], want[1])], 'occupations equal the serial ones on every rank')


def instances(tier):
    q = tier == 'quick'
    for P, m in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 2), (4, 3)) + (
            () if q else ((5, 2), (6, 3), (3, 5), (2, 8))):
        yield Inst('transpose_P%d_m%d' % (P, m), transpose, dict(P=P, m=m, cplx=False))
    yield Inst('transpose_c_P3_m2', transpose, dict(P=3, m=2, cplx=True))
    for P, m, n in ((2, 2, 3), (2, 2, 5), (3, 1, 4), (2, 3, 3)):
        yield Inst('reject_P%d_%dx%d' % (P, m, n), reject, dict(P=P, m=m, n=n))
    for P, n, p, mode in ((1, 2, 1, 'big'), (2, 2, 1, 'big'), (3, 3, 1, 'chain'), (3, 3, 2, 'big'),
                          (1, 3, 1, 'chain'), (2, 4, 1, 'chain'), (4, 4, 3, 'chain'), (2, 4, 2, 'chain'),
                          (3, 4, 2, 'chain')) + (
            () if q else ((6, 4, 2, 'big'), (5, 5, 1, 'chain'), (5, 5, 2, 'chain'), (2, 5, 2, 'chain'))):
        yield Inst('product_P%d_n%d_p%d' % (P, n, p), product,
                   dict(P=P, n=n, p=p, sd=n < 4, mode=mode), timeout=200 if q else 1500,
                   abstract_mul=True)
    for n, a, b, P in ((3, 1, 0, 1), (3, 1, 1, 2), (2, 1, 1, 3), (4, 2, 1, 2), (4, 2, 2, 4)):
        yield Inst('bad_P%d_n%d_%d%d' % (P, n, a, b), bad_product, dict(n=n, a=a, b=b, P=P))
    for P, d in ((1, 2), (2, 2), (2, 4), (3, 3)) + (() if q else ((3, 6), (4, 4))):
        yield Inst('step_P%d_d%d' % (P, d), step, dict(P=P, d=d), timeout=200 if q else 1500)
    for P, d, maxn, ND in ((3, 3, 3, 10), (2, 4, 3, 2), (3, 3, 3, 2), (4, 4, 3, 1)) + (
            () if q else ((4, 4, 4, 10), (3, 3, 4, 2))):
        yield Inst('tridiag_P%d_d%d_m%d_%d' % (P, d, maxn, ND), tridiag,
                   dict(P=P, d=d, maxn=maxn, ND=ND), timeout=200 if q else 1500)
    for P, n, pu, pd, nev, co, order in ((2, 2, 1, 1, 1, 0, 'F'), (2, 2, 1, 1, 2, 1, 'C'),
                                         (3, 3, 1, 2, 1, 1, 'F'), (3, 3, 1, 1, 2, 0, 'C'),
                                         (1, 3, 2, 1, 1, 0, 'C'), (3, 3, 2, 1, 2, 1, 'C'),
                                         (2, 4, 1, 2, 1, 1, 'C')):
        yield Inst('occ_P%d_n%d_%d%d_%s%d' % (P, n, pu, pd, order, co), occ,
                   dict(P=P, n=n, pu=pu, pd=pd, nev=nev, coeffs=co, order=order))
