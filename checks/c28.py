from .common import *
from symx import mpi
from .c11 import h_exp, recip
from .c15 import number
from .c18 import o_chi2
from .c26 import freqs, load, expect_H, _gf, hyb
from .c29 import o_matsum

EXPLAIN = ('The real-space local Green function runs on symbolic Hamiltonian, overlap, hybridisation and '
           'self-energies for every map from sites to inequivalent orbitals, serially and on every rank '
           'of a communicator whose other ranks send free data; the impurity container is run on '
           'symbolic baths and occupations.')
BOUNDS = {'quick': 'up to 3 sites, every map of sites to inequivalent orbitals, with and without spin, '
                   '1 to 3 frequencies, 1 to 3 ranks; up to 3 impurities',
          'thorough': '4 sites (diagonal overlap), 3 frequencies with spin'}
OUTSIDE = 'numbers of orbitals that are not a multiple of the ranks; the transport of MPI itself'
STUBS = ['mpi comm: Allgather places free blocks for the other ranks']


class Comm:
    """One rank; what the others send is free."""

    def __init__(self, h, size, rank, other):
        self.size, self.rank, self.h, self.other = size, rank, h, other
        self.sent = []

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def Allgather(self, send, recv):
        s, ns = mpi._buf(send)
        r, nr = mpi._buf(recv, self.size)
        if ns != nr:
            raise mpi.MPIError('truncated message')
        n, flat = ns, s[:ns].copy()
        self.sent.append(flat)
        for k in range(self.size):
            blk = flat if k == self.rank else self.other(len(self.sent) - 1, k, n)
            for j in range(n):
                r[k * n + j] = blk[j]

    def allgather(self, x):
        flat = np.asarray(x).reshape(-1)
        self.sent.append(flat)
        out = []
        for k in range(self.size):
            blk = flat if k == self.rank else self.other(len(self.sent) - 1, k, len(flat))
            out.append(blk.reshape(np.shape(x)) if np.ndim(x) else blk[0])
        return out


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    t = 0
    for j in range(n):
        m = [[M[a][b] for b in range(n) if b != j] for a in range(1, n)]
        t = t + (-1) ** j * M[0][j] * det(m)
    return t


def inv_diag(M, i):
    n = len(M)
    m = [[M[a][b] for b in range(n) if b != i] for a in range(n) if a != i]
    return det(m) / det(M)


def setup(h, n, inv, size=1, rank=0, diag_s=False):
    neq = [list(inv).index(k) for k in range(max(inv) + 1)]
    H = h.symmetric('H', n)
    if diag_s:
        S = h.wrap(np.array([[h.const(1 if i == j else 0) for j in range(n)] for i in range(n)], object)) \
            if h.sym else np.eye(n)
    else:
        S = h.symmetric('S', n)
        for i in range(n):
            S[i, i] = S[i, i] + 3
    F = h.carray('F', n * n).reshape(n, n)
    mu = h.real('mu')
    return neq, H, S, F, mu


def build(h, n, inv, comm, neq, H, S, F, mu):
    nd = h.world.nano_dmft
    g = nd.Gfloc(H, S, lambda z: h.wrap(F * z), np.array(neq), np.array(inv), comm)
    g.update(mu)
    return nd, g


def local(h):
    n, inv, spin, nz = h.param('n'), h.param('inv'), h.param('spin'), h.param('nz')
    size, rank = h.param('size'), h.param('rank')
    neq, H, S, F, mu = setup(h, n, inv, diag_s=n > 2)
    if n > 2:                           # keep the polynomials small
        F = h.wrap(np.array([[Cx(h.const(0), h.const(0)) if h.sym else 0j] * n] * n))
        F[0, 0] = h.cplx('F00')
    N = len(neq)
    per = N // size
    mine = neq[rank * per:(rank + 1) * per]
    tail = ((2,) if spin else ()) + (nz,)
    cnt = int(np.prod(tail))
    sig = h.carray('S_', N * cnt).reshape((N,) + tail)
    z = freqs(h, nz)
    if h.param('mem') == 'F':
        loc_ = np.asfortranarray(np.asarray(sig[rank * per:(rank + 1) * per]))
    else:
        loc_ = sig[rank * per:(rank + 1) * per].copy()
    loc_ = h.wrap(loc_) if h.sym else loc_
    comm = Comm(h, size, rank, lambda c, k, m: sig[k * per:(k + 1) * per].reshape(-1)) if size > 1 else None
    if h.param('comm1'):
        comm = Comm(h, 1, 0, None)
    nd, g = build(h, n, inv, comm, neq, H, S, F, mu)
    zs_ = []

    def Sigma(zz):
        zs_.append(zz)
        return loc_.copy()
    g.set_local(Sigma)
    h.eq(g.ed, [H[i, i] for i in mine], 'levels of the orbitals of this rank')
    zz = h.wrap(z.copy()) if h.sym else z.copy()
    G = g(zz)
    h.ok(np.shape(G) == (per,) + tail, 'one Green function per orbital of this rank')
    for t in np.ndindex(*tail):
        zk = z[t[-1]]
        M = [[(zk + mu) * S[a, b] - H[a, b] - F[a, b] * zk
              - (sig[(inv[a],) + t] if a == b else 0) for b in range(n)] for a in range(n)]
        for o, site in enumerate(mine):
            h.eq(G[(o,) + t], inv_diag(M, site), 'local Green function')
    if not h.param('delta'):
        return
    # Weiss field and hybridisation from the local Green function, decided with the latter free
    free = h.carray('Gf', per * cnt).reshape((per,) + tail)
    for v in free.reshape(-1):
        h.assume(v.real * v.real + v.imag * v.imag > 0.01)

    class Free(nd.Gfloc):
        def __call__(self, zz):
            return h.wrap(free.copy())
    g.__class__ = Free
    W, D = g.Weiss(zz), g.Delta(zz)
    h.ok(np.shape(D) == (per,) + tail, 'one hybridisation per orbital of this rank')
    for t in np.ndindex(*tail):
        for o, site in enumerate(mine):
            s = sig[(rank * per + o,) + t]
            w = s + 1 / free[(o,) + t]
            h.eq(W[(o,) + t], w, 'Weiss field')
            h.eq(D[(o,) + t], z[t[-1]] + mu - H[site, site] - w, 'hybridisation')


def free(h):
    n = h.param('n')
    neq, H, S, F, mu = setup(h, n, list(range(n)))
    nd, g = build(h, n, list(range(n)), None, neq, H, S, F, mu)
    z = freqs(h, 1)[0]
    M = [[(z + mu) * S[a, b] - H[a, b] - F[a, b] * z for b in range(n)] for a in range(n)]
    h.eq(g.free(z, inverse=True), np.array(M, object), 'inverse free Green function')
    if n <= 2:
        x = g.free(z)
        for a in range(n):
            h.eq(x[a, a], inv_diag(M, a), 'free Green function')


def occupations(h):
    """integrate: Matsubara occupations of all sites, both spins, gathered from all ranks."""
    n, inv, spin = h.param('n'), h.param('inv'), h.param('spin')
    size, rank = h.param('size'), h.param('rank')
    neq, H, S, F, mu = setup(h, n, inv)
    N = len(neq)
    per = N // size
    nm, beta = 2, 70
    other = h.array('occ', N * (2 if spin else 1))
    comm = None
    if size > 1:
        comm = Comm(h, size, rank, lambda c, k, m: other[k * m:(k + 1) * m])
    nd, g = build(h, n, inv, comm, neq, H, S, F, mu)
    shape = (per,) + ((2,) if spin else ())
    G = h.carray('G', int(np.prod(shape)) * nm).reshape(shape + (nm,))
    at = []

    class Free(nd.Gfloc):
        def __call__(self, zz):
            at.append((self.mu, len(zz)))
            return h.wrap(G.copy())
    g.__class__ = Free
    f = h.world.integrate_gf.matsum_gf
    h.ok(len(f.__defaults__) == 3, 'defaults')
    f.__defaults__ = (0., nm, h.const(beta) if h.sym else float(beta))
    m2 = h.real('m2')
    got = g.integrate(m2)
    h.ok(all(len(np.shape(x)) <= 1 for x in (got,)), 'one occupation per site')
    for m_, k in at:
        h.eq(m_, m2, 'at the chemical potential asked for')
    h.eq(g.mu, mu, 'chemical potential restored')
    loc_ = {}
    for ix in np.ndindex(*shape):
        loc_[ix] = o_matsum(h, h.const(beta) if h.sym else beta, list(G[ix]))
    want = []
    for site in range(n):
        o = inv[site]
        k, j = divmod(o, per)
        t = 0
        for s in range(2 if spin else 1):
            if k == rank:
                t = t + loc_[(j, s) if spin else (j,)]
            else:
                t = t + other[k * per * (2 if spin else 1) + j * (2 if spin else 1) + s]
        want.append(t if spin else 2 * t)
    h.eq(np.ravel(got) if n == 1 else got, want, 'occupation of every site')


def world_slices(h):
    """The ranks share the orbitals without gap or overlap."""
    nd = h.world.nano_dmft
    f = h.fn('nano_dmft._get_idx_world')
    for size in range(1, 6):
        for per in range(1, 5):
            n = size * per
            got = []
            for r in range(size):
                got += list(range(n))[f(Comm(h, size, r, None), n)]
            h.ok(got == list(range(n)), 'slices of all ranks')
    h.ok(list(range(5))[f(None, 5)] == list(range(5)), 'serial')


def container(h):
    k, nb, spin = h.param('k'), h.param('nb'), h.param('spin')
    per = 2 if spin else 1
    xs = [h.array('x%d' % i, 2 * nb) for i in range(k * per)]
    w, d, seen = load(h, xs)
    nd = w.nano_dmft
    U, beta = [h.real('U%d' % i, 0, 10) for i in range(k)], h.real('beta', 0.5, 50)
    parts = [(d.SpinGfimp if spin else d.Gfimp)(nb + 1, nmats=1, U=U[i], beta=beta) for i in range(k)]
    g = nd.Gfimp(parts)
    h.ok(len(g) == k and list(g) == parts and g[0] is parts[0], 'container')
    h.eq(g.beta, beta, 'attributes of the first impurity')
    tg = h.carray('t', k * per).reshape((k,) + ((2,) if spin else ()) + (1,))
    g.fit(tg)
    z1 = [Cx(h.const(0), np.pi / beta) if h.sym else 1j * np.pi / beta]
    q = h.array('q', 2 * nb)
    for j, ix in enumerate(np.ndindex(*tg.shape[:-1])):
        h.eq(seen[j][0](q), o_chi2(q, z1, tg[ix]), 'every impurity fits its own hybridisation')
    mus = h.array('mu', k)
    m0 = h.real('m0')
    for v in (m0, mus):
        g.update(v)
        for i in range(k):
            want = v if v is m0 else mus[i]
            for s in range(per):
                Hm = parts[i].H[s] if spin else parts[i].H
                h.eq(Hm, expect_H(h, xs[i * per + s], want, nb), 'every impurity has its own bath and potential')
    z = freqs(h, 2)
    vals = []
    for i in range(k):
        for s, p in enumerate(parts[i]):
            gf, v, _ = _gf(h, 'G%d_%d' % (i, s), 2)
            p.gf = gf
            vals.append(v)
    S = g.Sigma(z)
    h.ok(np.shape(S) == (k,) + ((2,) if spin else ()) + (2,), 'self-energy of every impurity')
    S = np.asarray(S).reshape(k * per, 2)
    for j in range(k * per):
        D = hyb(xs[j], z)
        h.eq(S[j], [z[i] + mus[j // per] - D[i] - 1 / vals[j][i] for i in range(2)], 'self-energy')
    if spin:
        g.up.update(mus + 1)
        g.dw.update(mus - 1)
        for i in range(k):
            for s in (0, 1):
                h.eq(parts[i].H[s][0, 0], -(mus[i] + 1 - 2 * s), 'both spins of every impurity')
        g.spin_symmetrize()
        for i in range(k):
            for s in (0, 1):
                h.eq(parts[i].H[s], expect_H(h, xs[i * per], mus[i] + 1, nb), 'symmetrised')
    done = []
    for i, p in enumerate(parts):
        p.solve = (lambda i=i: done.append(i))
    g.solve()
    h.ok(sorted(done) == list(range(k)), 'every impurity is solved once')
    g.reset_bath()
    init = w.fit_cg.get_initial_bath(nbath=nb)
    for p in parts:
        for s in p:
            h.eq(s.Delta.x, init, 'every bath is reset')


def moments(h):
    """<n_up - n_dw> of the impurity site of every impurity."""
    k, n = h.param('k'), h.param('n')
    w, d, _ = load(h)
    nd = w.nano_dmft
    beta = h.real('beta', 0.1, 3)
    parts, want = [], []
    for i in range(k):
        p = d.Gfimp(n, nmats=1, U=h.real('U%d' % i, 0, 10), beta=beta)
        es = {}
        p.egs = h.real('egs%d' % i)
        Z, t = 0, 0
        for key, kk in h.param('es'):
            s = w.espace.build_empty_sector(n, *key)
            s.eigvals = h.array('E%d_%d%d' % ((i,) + key), kk)
            v = h.array('v%d_%d%d' % ((i,) + key), s.d, kk)
            s.eigvecs = np.asfortranarray(v) if not h.sym else h.wrap(np.asfortranarray(np.asarray(v)))
            es[key] = s
            for l in range(kk):
                wt = h_exp(h, -beta * (s.eigvals[l] - p.egs))
                Z = Z + wt
                t = t + wt * (number(h, v[:, l], key[0], key[1], n, 0, 0)
                              - number(h, v[:, l], key[0], key[1], n, 0, 1))
        p.espace = es
        parts.append(p)
        want.append(t * recip(Z))
    h.eq(nd.Gfimp(parts).get_local_moments(), want, 'local moment of every impurity')


def partitions(n):
    """Maps of sites to orbitals numbered by first occurrence."""
    def go(p, k):
        if len(p) == n:
            yield tuple(p)
            return
        for c in range(k + 1):
            yield from go(p + [c], max(k, c + 1))
    yield from go([], 0)


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul=True, abstract_recip=True, timeout=80 if q else 600)
    for n in (1, 2, 3) + (() if q else (4,)):
        for inv in partitions(n):
            N = max(inv) + 1
            for spin in (0, 1):
                for nz in ((1, 2) if n < 3 else (1,) if spin and q else (2,)) + ((3,) if n == 1 or not q else ()):
                    if n == 4 and (spin or nz > 1):
                        continue
                    for size in (1, 2, 3):
                        if N % size:
                            continue
                        for rank in range(size):
                            i = n + N + spin + nz + rank
                            yield Inst('local_%s_s%d_z%d_r%dof%d' % (''.join(map(str, inv)), spin, nz, rank, size),
                                       local, dict(n=n, inv=inv, spin=spin, nz=nz, size=size, rank=rank,
                                                   mem='CF'[i % 2] if size == 1 else 'C', comm1=0,
                                                   delta=1), **ab)
    yield Inst('local_comm1', local, dict(n=2, inv=(0, 1), spin=1, nz=2, size=1, rank=0, mem='C', comm1=1,
                                          delta=1), **ab)
    for n in (1, 2, 3):
        yield Inst('free_%d' % n, free, dict(n=n), **ab)
    for inv in ((0,), (0, 0), (0, 1), (0, 1, 0), (0, 0, 1), (0, 1, 2)):
        for spin in (0, 1):
            N = max(inv) + 1
            for size in (1, 2, 3):
                if N % size:
                    continue
                for rank in range(size):
                    yield Inst('occ_%s_s%d_r%dof%d' % (''.join(map(str, inv)), spin, rank, size), occupations,
                               dict(n=len(inv), inv=inv, spin=spin, size=size, rank=rank), **ab)
    yield Inst('slices', world_slices, {}, witness=False)
    for k, nb in ((1, 1), (2, 1), (3, 2)):
        for spin in (0, 1):
            yield Inst('container_k%d_s%d' % (k, spin), container, dict(k=k, nb=nb, spin=spin), **ab)
    for k in (1, 2):
        yield Inst('moments_k%d' % k, moments, dict(k=k, n=2, es=(((1, 0), 2), ((0, 1), 1), ((1, 1), 2))), **ab)
