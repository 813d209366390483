from .common import *
from .c04 import onebody
from .c12 import same
from .c11 import h_exp

EXPLAIN = ('The eigenspace is built by the real code with the eigensolvers replaced by free ascending '
           'eigenpairs: every sector must be solved for its own Hamiltonian, truncated to the '
           'requested number of lowest states, and the ground energy must be the global minimum. '
           'Screening and the adjustment of the requested numbers run on symbolic energies, '
           'temperatures, cutoffs and counts.')
BOUNDS = {'quick': 'n<=3 sites (all sectors), arbitrary requested numbers; screening of up to 3 sectors '
                   'with up to 3 states; adjustment for n<=2 with every pattern of present sectors and '
                   'symbolic counts',
          'thorough': 'larger sectors through the iterative solver (n=7), more patterns'}
OUTSIDE = 'accuracy of LAPACK/ARPACK'
STUBS = ['numpy.linalg.eigh, edpyt.eigh_arpack.eigsh: free ascending eigenpairs of the operator given']


class Solver:
    """Free eigenpairs of whatever is handed to a dense or iterative solver."""

    def __init__(self, h, w):
        self.h, self.w, self.log = h, w, []
        patch_np(w.espace, linalg=dict(eigh=self.eigh))
        w.eigh_arpack.eigsh = self.eigsh

    def free(self, d, k):
        h, i = self.h, len(self.log)
        if h.sym:
            e = h.array('L%d' % i, k)
            for x, y in zip(e, e[1:]):
                h.assume(x <= y)
        else:
            e = np.sort(np.asarray(h.array('L%d' % i, k), float))
        v = h.array('Lv%d' % i, d, k)
        return e, v

    def eigh(self, a, *args, **kw):
        e, v = self.free(len(a), len(a))
        self.log.append((np.array(a), None, e.copy(), v.copy()))
        return e, v

    def eigsh(self, n, nev, matvec, *a, **k):
        e, v = self.free(n, nev)
        self.log.append((None, matvec, e.copy(), v.copy()))
        return e, v


def dense(h, H, V, n, qns, hf=False):
    """Matrix of the sector from the definition."""
    if len(qns) == 1:
        st = basis(2 * n, qns[0])
    else:
        st = sz_states(n, *qns)
    terms = one_body_terms(H, n) if len(qns) == 2 else [
        (H[i][i], [('d', i + s * n), ('c', i + s * n)]) for i in range(n) for s in (0, 1)]
    M = second_quantised(n, st, terms, h.const(0))
    D = coulomb_diag(n, st, V, False, [0] * n, h.const(1))
    for i in range(len(st)):
        M[i, i] = M[i, i] + D[i]
    return M


def check_solution(h, sv, H, V, n, qns, val, vec, k, d):
    hit = [x for x in sv.log if len(x[2]) >= k and same(h, x[2][:k], val)]
    h.ok(len(hit) >= 1, 'the lowest eigenvalues of a solved matrix')
    if not hit:
        return
    want = dense(h, H, V, n, qns)
    if not h.sym:       # equal numbers do not identify the solver run
        fits = [x for x in hit if x[0] is not None and x[0].shape == want.shape
                and np.allclose(x[0].astype(float), want.astype(float))
                and np.shape(vec) == np.shape(x[3][:, :k]) and np.allclose(x[3][:, :k], vec)]
        hit = fits or hit
    a, mv, e, v = hit[0]
    h.eq(vec, np.asarray(v)[:, :k], 'the eigenvectors of these eigenvalues')
    if a is not None:
        h.eq(a, want, 'the sector is solved for its own Hamiltonian')
    else:
        x = h.array('x', d)
        h.eq(mv(x.copy()), np.asarray(want).dot(np.asarray(x)), 'the sector is solved for its own Hamiltonian')


def prep(h, n, diag=False):
    H = onebody(h, n, False, 'zero' if diag else 'chain')
    V = h.symmetric('V', n)
    return H, V


def build(h):
    n, sym = h.param('n'), h.param('sym')
    w = h.new_world()
    sv = Solver(h, w)
    H, V = prep(h, n, sym == 'N')
    pat = h.param('neig')
    qs = [(a, b) for a in range(n + 1) for b in range(n + 1)] if sym == 'sz' else [(a,) for a in range(2 * n + 1)]
    dim = {q: len(basis(n, q[0])) * len(basis(n, q[1])) if sym == 'sz' else len(basis(2 * n, q[0])) for q in qs}
    if pat is None:
        neig, want = None, dim
    else:
        neig = np.array([min(pat[i % len(pat)], dim[q]) for i, q in enumerate(qs)])
        want = {q: int(neig[i]) for i, q in enumerate(qs)}
    es, egs = w.espace.build_espace(H, V, neig, sym)
    h.ok(list(es) == [q for q in qs if want[q] > 0], 'one entry per requested sector, in order')
    for q, s in es.items():
        k = want[q]
        h.ok(s.d == dim[q], 'sector dimension')
        if sym == 'sz':
            h.ok([int(x) for x in s.states.up] == basis(n, q[0])
                 and [int(x) for x in s.states.dw] == basis(n, q[1]), 'sector states')
        else:
            h.ok([int(x) for x in s.states] == basis(2 * n, q[0]), 'sector states')
        h.ok(len(s.eigvals) == k and np.shape(s.eigvecs) == (s.d, k), 'number of states requested')
        check_solution(h, sv, H, V, n, q, s.eigvals, s.eigvecs, k, s.d)
    allE = [x for s in es.values() for x in s.eigvals]
    for x in allE:
        h.ok(egs <= x, 'ground energy is the lowest of all sectors')
    hit = allE[0] == egs
    for x in allE[1:]:
        hit = hit | (x == egs)
    h.ok(hit, 'ground energy is attained')


def refuse(h):
    H, V = prep(h, 1)
    try:
        h.world.espace.build_espace(H, V, None, 'xyz')
        h.ok(False, 'unknown symmetries are refused')
    except NotImplementedError:
        h.ok(True, 'unknown symmetries are refused')
    try:
        h.world.espace.get_espace_dim(2, None, 'xyz')
        h.ok(False, 'unknown symmetries are refused')
    except NotImplementedError:
        h.ok(True, 'unknown symmetries are refused')


def dims(h):
    n, sym = h.param('n'), h.param('sym')
    top = 4 ** n
    m = h.int('m', 1, top) if h.param('lim') else None
    got = h.world.espace.get_espace_dim(n, m, sym)
    want = [math.comb(n, a) * math.comb(n, b) for a in range(n + 1) for b in range(n + 1)] \
        if sym == 'sz' else [math.comb(2 * n, a) for a in range(2 * n + 1)]
    h.ok(len(got) == len(want), 'one entry per sector')
    for g, x in zip(got, want):
        if m is None:
            h.ok(g == x, 'sector dimension')
        elif h.sym:
            h.ok(((m >= x) & (g == x)) | ((m < x) & (g == m)), 'dimension clipped to the maximum')
        else:
            h.ok(int(g) == min(int(m), x), 'dimension clipped to the maximum')


def solve(h):
    """solve_sector returns the k lowest eigenpairs whatever the method."""
    n, q, k = h.param('n'), h.param('q'), h.param('k')
    w = h.new_world()
    sv = Solver(h, w)
    H, V = prep(h, n)
    s = w.espace.build_empty_sector(n, *q)
    kk = s.d if k is None else k
    val, vec = w.espace.solve_sector(H, V, s, k) if k is not None else w.espace.solve_sector(H, V, s)
    h.ok(len(val) == kk and np.shape(vec) == (s.d, kk), 'number of states requested')
    check_solution(h, sv, H, V, n, q, val, vec, kk, s.d)


def big(h):
    """Sectors beyond the dense limit: the k lowest states of the same operator."""
    n, q, k = h.param('n'), h.param('q'), h.param('k')
    w = h.new_world()
    sv = Solver(h, w)
    H = h.wrap(np.array([[h.const(0)] * n] * n, object))
    for i in range(n):
        H[i, i] = h.real('e%d' % i)
        if i:
            H[i, i - 1] = H[i - 1, i] = h.const(1)
    V = h.wrap(np.array([[h.const(0)] * n] * n, object))
    V[0, 0] = h.real('U')
    s = w.espace.build_empty_sector(n, *q)
    val, vec = w.espace.solve_sector(H, V, s, k)
    h.ok(len(val) == k and np.shape(vec) == (s.d, k), 'number of states requested')
    h.ok(len(sv.log) == 1, 'one solver run')
    a, mv, e, v = sv.log[0]
    h.eq(val, e[:k], 'the lowest eigenvalues of a solved matrix')
    h.eq(vec, np.asarray(v)[:, :k], 'the eigenvectors of these eigenvalues')
    if mv is None:
        return
    # the operator, on a basis vector and a sparse combination
    st = sz_states(n, *q)
    ix = {x: i for i, x in enumerate(st)}
    for j in h.param('probe'):
        x = h.wrap(np.array([h.const(0)] * s.d, object))
        x[j] = h.real('amp')
        y = np.asarray(mv(x))
        want = {}
        for sp in (0, 1):
            for a_ in range(n):
                for b_ in (a_ - 1, a_, a_ + 1):
                    if 0 <= b_ < n:
                        f, sg = apply_string(st[j], [('d', a_ + sp * n), ('c', b_ + sp * n)], 2 * n)
                        if f is not None:
                            want[ix[f]] = want.get(ix[f], h.const(0)) + sg * H[a_, b_]
        if (st[j] & 1) and (st[j] >> n) & 1:
            want[j] = want.get(j, h.const(0)) + V[0, 0]
        for i in sorted(set(want) | set(range(0, s.d, 97))):
            h.eq(y[i], want.get(i, h.const(0)) * x[j], 'the sector is solved for its own Hamiltonian')
        nz = [i for i in range(s.d) if i not in want and not (
            (isinstance(y[i], R) and y[i].is_const and y[i].n == 0) or
            (not isinstance(y[i], R) and abs(y[i]) < 1e-12))]
        h.ok(not nz, 'the sector is solved for its own Hamiltonian')


def screen(h):
    shape = h.param('shape')      # list of (key, nstates)
    w = h.world
    n = 2
    es, orig = {}, {}
    for key, k in shape:
        s = sector(h, n, *key)
        s.eigvals = h.array('E%d%d' % key, k)
        s.eigvecs = h.array('v%d%d' % key, s.d, k)
        es[key] = s
        orig[key] = (np.array(s.eigvals), np.array(s.eigvecs))
    beta, egs = h.real('beta', 0, 3), h.real('egs')
    cut = h.real('cut', 0, 1)
    w.espace.screen_espace(es, egs, beta, cut)
    left = []
    for key, (E, v) in orig.items():
        keep = [l for l in range(len(E)) if bool(h_exp(h, -beta * (E[l] - egs)) > cut)]
        if keep:
            left.append(key)
            h.ok(key in es, 'sectors with relevant states stay')
            if key in es:
                h.eq(es[key].eigvals, E[keep], 'exactly the relevant states stay')
                h.eq(es[key].eigvecs, v[:, keep], 'with their eigenvectors')
                h.ok(es[key].eigvecs.ndim == 2, 'eigenvectors stay a matrix')
    h.ok(list(es) == left, 'sectors without relevant states go')


def screen_default(h):
    """Defaults keep the ground states."""
    es = {}
    for key in ((0, 1), (1, 1)):
        s = sector(h, 2, *key)
        s.eigvals = h.array('E%d%d' % key, 2)
        s.eigvecs = h.array('v%d%d' % key, s.d, 2)
        es[key] = s
    egs = es[1, 1].eigvals[0]
    for s in es.values():
        for x in s.eigvals:
            h.assume(egs <= x)
    v = np.array(es[1, 1].eigvecs[:, 0])
    f = h.world.espace.screen_espace
    f(es, egs)
    h.ok((1, 1) in es, 'the ground state is never screened out')
    h.eq(es[1, 1].eigvals[0], egs, 'the ground state is never screened out')
    h.eq(es[1, 1].eigvecs[:, 0], v, 'the ground state is never screened out')


class Sized:
    def __init__(self, n):
        self.size = n
        self.shape = (n,)

    def __len__(self):
        return int(self.size)


def adjust(h):
    n, present = h.param('n'), h.param('present')
    qs = [(a, b) for a in range(n + 1) for b in range(n + 1)]
    dim = {q: math.comb(n, q[0]) * math.comb(n, q[1]) for q in qs}
    neig = h.ints([h.int('k%d' % i, 1, dim[q]) for i, q in enumerate(qs)])
    old = list(neig)
    es, size = {}, {}
    for i, q in enumerate(qs):
        if q in present:
            size[q] = h.int('s%d' % i, 1, dim[q])
            if h.sym:
                h.assume(size[q] <= old[i])
            else:
                size[q] = min(size[q], int(old[i]))
            s = sector(h, n, *q)
            s.eigvals = Sized(size[q])
            es[q] = s
    h.world.espace.adjust_neigsector(es, neig, n)
    for i, q in enumerate(qs):
        k, new = old[i], neig[i]
        if q in size and bool(size[q] == k):
            w_ = k + 1 if bool(k + 1 <= dim[q]) else dim[q]
            h.ok(new == w_, 'one more state where all requested ones were relevant')
        else:
            w_ = k - 1 if bool(k - 1 >= 1) else 1
            h.ok(new == w_, 'one state less where some were irrelevant')


def instances(tier):
    q = tier == 'quick'
    t = 200 if q else 1500
    for n, sym, pat in ((1, 'sz', None), (2, 'sz', None), (2, 'sz', (1, 0, 2)), (2, 'sz', (2, 1)), (3, 'sz', (1, 2, 0, 3)),
                        (1, 'N', None), (2, 'N', (1, 2)), (2, 'N', None), (3, 'sz', None)) + (
            () if q else ((3, 'sz', (9, 1)), (3, 'N', (2, 0, 1)))):
        yield Inst('build_n%d_%s_%s' % (n, sym, 'all' if pat is None else ''.join(map(str, pat))), build,
                   dict(n=n, sym=sym, neig=pat), timeout=t, abstract_mul=True)
    yield Inst('refuse', refuse, {})
    for n in (1, 2, 3, 4) + (() if q else (5,)):
        for sym in ('sz', 'N'):
            for lim in (0, 1):
                yield Inst('dims_n%d_%s%d' % (n, sym, lim), dims, dict(n=n, sym=sym, lim=lim))
    for n, qn, k in ((2, (1, 1), None), (2, (1, 1), 1), (2, (1, 1), 3), (3, (2, 1), 4), (2, (2, 1), 1), (1, (0, 0), 1)):
        yield Inst('solve_n%d_%d%d_%s' % (n, qn[0], qn[1], k), solve, dict(n=n, q=qn, k=k), timeout=t,
                   abstract_mul=True)
    yield Inst('big_n6', big, dict(n=6, q=(3, 3), k=2, probe=()), timeout=t)
    yield Inst('big_n7', big, dict(n=7, q=(3, 3), k=2, probe=(0, 7, 600)), timeout=t)
    if not q:
        yield Inst('big_n7b', big, dict(n=7, q=(4, 3), k=6, probe=(1, 33, 1224)), timeout=t)
    for i, shape in enumerate(((((1, 1), 2),), (((0, 1), 1), ((1, 1), 2)), (((0, 1), 2), ((1, 1), 3), ((2, 2), 1)))):
        yield Inst('screen_%d' % i, screen, dict(shape=shape), timeout=t)
    yield Inst('screen_default', screen_default, {}, timeout=t)
    qs = [(0, 0), (0, 1), (1, 0), (1, 1)]
    for m in range(16):
        yield Inst('adjust_n1_%d' % m, adjust, dict(n=1, present=[x for i, x in enumerate(qs) if (m >> i) & 1]), timeout=t)
    q2 = [(a, b) for a in range(3) for b in range(3)]
    for m in (0, 511, 0b10, 0b100000001, 0b011010110, 0b111110000, 0b10000) if q else range(0, 512, 7):
        yield Inst('adjust_n2_%d' % m, adjust, dict(n=2, present=[x for i, x in enumerate(q2) if (m >> i) & 1]), timeout=t)
