from .common import *
from .c10 import full_op
from .c11 import h_exp, recip

EXPLAIN = ('The Lanczos Green function builder runs on symbolic states, Hamiltonian entries, '
           'temperature and frequency; the tridiagonalisation and the small diagonalisations are '
           'replaced by free coefficients, and every start vector, operator, energy shift, '
           'Boltzmann weight, sign and the partition function must match the definition.')
BOUNDS = {'quick': 'n=2..4 sites, up to three source sectors with up to two states each, chains of '
                   'length <=3, both representations, both spins, merged and separated, '
                   'off-diagonal elements',
          'thorough': 'all source sectors of n=4 and pairs of them'}
OUTSIDE = 'convergence of the recursion (C14), LAPACK accuracy'
STUBS = ['edpyt.lanczos.build_sl_tridiag: free coefficients, its contract is C14',
         'edpyt.espace.solve_sector: free complete spectrum of the sector',
         'edpyt.tridiag.eigh_tridiagonal: free eigenpairs']


class Bench:
    """World with the numerical kernels replaced by free values."""

    def __init__(self, h):
        self.h = h
        self.w = w = h.new_world()
        self.calls, self.solved, self.trid = [], {}, {}
        w.lanczos.build_sl_tridiag = self.tridiag
        w.espace.solve_sector = self.solve
        w.tridiag.eigh_tridiagonal = self.eigh

    def prepare(self):
        h = self.h
        n = self.n = h.param('n')
        self.H = h.wrap(np.array([[h.const(0)] * n] * n, object))
        for i in range(n):
            self.H[i, i] = h.real('ek_%d' % i)
        if n > 1:
            self.H[0, 1] = self.H[1, 0] = h.real('t')
        self.V = h.wrap(np.array([[h.const(0)] * n] * n, object))
        self.V[0, 0] = h.real('U')
        self.es, self.orig = {}, {}
        for key, k in h.param('es'):
            s = self.w.espace.build_empty_sector(n, *key)
            k = min(k, s.d)
            s.eigvals = h.array('E%d%d' % key, k)
            s.eigvecs = h.array('v%d%d' % key, s.d, k)
            self.es[key] = s
            self.orig[key] = (s.eigvals.copy(), s.eigvecs.copy())
        self.beta, self.egs = h.real('beta', 0, 3), h.real('egs')
        self.e, self.eta = h.array('w', 2), h.real('eta', 0.2, 2)
        self.z = Cx(self.e[0], self.eta) if h.sym else complex(self.e[0], self.eta)

    # stubs ------------------------------------------------------------------
    def tridiag(self, matvec, phi0, *a, **k):
        v = np.array(phi0, copy=True)
        if not self.h.sym:
            if np.linalg.norm(v) < 1e-14:
                raise self.w.lanczos.ZeroNormInitialVector('zero')
        elif all(_zero(x) for x in v):
            raise self.w.lanczos.ZeroNormInitialVector('zero')
        i = len(self.calls)
        L = 1 + (i + self.h.param('L')) % 3
        av, bv = self.h.array('a%d' % i, L), self.h.array('b%d' % i, L)
        self.calls.append((matvec, v, np.array(av), np.array(bv)))
        return av.copy(), bv.copy()

    def key(self, sct):
        up, dw = sct.states.up, sct.states.dw
        return (bin(int(up[0])).count('1'), bin(int(dw[0])).count('1'))

    def solve(self, H, V, sct, k=None):
        h = self.h
        key = self.key(sct)
        self.h.ok(H is self.H and V is self.V, 'sectors are solved for the given parameters')
        val = h.array('F%d%d' % key, sct.d)
        vec = h.array('f%d%d' % key, sct.d, sct.d)
        self.solved[key] = (val, vec)
        k = sct.d if k is None else int(k)
        return val[:k].copy(), vec[:, :k].copy()

    def eigh(self, a, b, *args, **k):
        i = len(self.trid)
        h = self.h
        L = len(a)
        val, vec = h.array('T%d' % i, L), h.array('t%d' % i, L, L)
        self.trid[i] = (np.array(a), np.array(b), val.copy(), vec.copy())
        return val.copy(), vec.copy()


def _zero(x):
    if isinstance(x, R):
        return x.is_const and x.n == 0 or (not x.is_const and core.z3.is_rational_value(core.simp(x.nt if False else core.term(x.n)))
                                           and core.simp(core.term(x.n)).as_fraction() == 0)
    return x == 0


def same(h, a, b):
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    if a.shape != b.shape:
        return False
    if h.sym:
        return all(_zero(core.as_r(x) - core.as_r(y)) for x, y in zip(a, b))
    return np.allclose(a.astype(float), b.astype(float), atol=1e-9)


def cfrac(z, a, b):
    r = None
    for x, y in zip(reversed(list(a)), reversed(list(b))):
        d = z - x if r is None else z - x - r
        r = y * recip(d)
    return r


def expected(bn, poss, ispin, lanczos_only=False):
    """Electron and hole parts of sum over the sites `poss` of op_pos."""
    h, n = bn.h, bn.n
    out = {'cdg': 0, 'c': 0}
    used = set()
    for key, (EI, vI) in bn.orig.items():
        for kind, step in (('cdg', 1), ('c', -1)):
            kJ = list(key)
            kJ[ispin] += step
            kJ = tuple(kJ)
            if not 0 <= kJ[ispin] <= n:
                continue
            M = sum(full_op(n, list(key), list(kJ), ispin, p, kind) for p in poss)
            for l in range(len(EI)):
                w = h_exp(h, -bn.beta * (EI[l] - bn.egs))
                phi = np.dot(M, np.asarray(vI)[:, l])
                sg = 1 if kind == 'cdg' else -1
                hit = [c for c in range(len(bn.calls)) if c not in used and same(h, bn.calls[c][1], phi)]
                if hit:
                    c = hit[0]
                    used.add(c)
                    check_matvec(bn, bn.calls[c][0], kJ)
                    a, b = bn.calls[c][2], bn.calls[c][3]
                    if h.param('repr') == 'cf':
                        bb = [y * y for y in b]
                        bb[0] = bb[0] * w
                        t = cfrac(bn.z, [sg * (x - EI[l]) for x in a], bb)
                    else:
                        ts = [v for v in bn.trid.values() if same(h, v[0], a) and same(h, v[1], b[1:])]
                        h.ok(bool(ts), 'the recursion matrix is what is diagonalised')
                        if not ts:
                            continue
                        val, vec = ts[0][2], ts[0][3]
                        t = 0
                        for r in range(len(val)):
                            q = vec[0, r] * b[0]
                            t = t + q * q * w * recip(bn.z - sg * (val[r] - EI[l]))
                elif kJ in bn.solved and not lanczos_only:
                    val, vec = bn.solved[kJ]
                    t = 0
                    A = np.dot(np.asarray(vec).T, phi)
                    for j in range(len(val)):
                        t = t + A[j] * A[j] * w * recip(bn.z - sg * (val[j] - EI[l]))
                else:
                    h.ok(all(_zero(x) if h.sym else abs(x) < 1e-12 for x in phi),
                         'every non-zero excitation contributes')
                    continue
                out[kind] = out[kind] + t
    h.ok(len(used) == len(bn.calls), 'no spurious recursion')
    return out


def check_matvec(bn, mv, kJ):
    h = bn.h
    sct = bn.w.espace.build_empty_sector(bn.n, *kJ)
    if h.inst.params.get('mv') is False:
        return
    x = h.array('x%d%d' % kJ, sct.d)
    want = bn.w.matvec_product.matvec_operator(*bn.w.build_mb_ham.build_mb_ham(bn.H, bn.V, sct))(x.copy())
    h.eq(mv(x.copy()), want, 'the recursion uses the Hamiltonian of the arrival sector')


def first(g):
    g = np.asarray(g)
    return np.broadcast_to(g, (2,))[:1]      # an empty sum may come back as a scalar zero


def partition(bn):
    Z = 0
    for E, v in bn.orig.values():
        for x in E:
            Z = Z + h_exp(bn.h, -bn.beta * (x - bn.egs))
    return Z


def untouched(bn):
    h = bn.h
    for key, (E, v) in bn.orig.items():
        h.eq(bn.es[key].eigvals, E, 'the eigenspace handed in is not modified')
        h.eq(bn.es[key].eigvecs, v, 'the eigenspace handed in is not modified')
    h.ok(list(bn.es) == list(bn.orig), 'no sector added or removed')


def diag(h):
    bn = Bench(h)
    bn.prepare()
    ispin, pos = h.param('ispin'), h.param('pos')
    g = bn.w.gf_lanczos.build_gf_lanczos(bn.H, bn.V, bn.es, bn.beta, bn.egs, pos=pos,
                                         repr=h.param('repr'), ispin=ispin, separate=h.param('sep'))
    ex = expected(bn, [pos], ispin)
    iZ = recip(partition(bn))
    if h.param('sep'):
        h.eq(first(g[0](bn.e, bn.eta)), [ex['cdg'] * iZ], 'electron part')
        h.eq(first(g[1](bn.e, bn.eta)), [ex['c'] * iZ], 'hole part')
    else:
        h.eq(first(g(bn.e, bn.eta)), [(ex['cdg'] + ex['c']) * iZ],
             'electron plus hole part')
    untouched(bn)


def offdiag(h):
    bn = Bench(h)
    bn.prepare()
    ispin = h.param('ispin')
    i, j = h.param('ij')
    g = h.world and bn.w.gf2_lanczos.build_gf_offdiag(
        bn.H, bn.V, bn.es, bn.beta, i, j, ispin=ispin, egs=bn.egs, repr=h.param('repr'),
        separate=h.param('sep'))
    ex = expected(bn, [i, j], ispin)
    iZ = recip(partition(bn))
    if h.param('sep'):
        h.eq(first(g[0](bn.e, bn.eta)), [ex['cdg'] * iZ], 'electron part')
        h.eq(first(g[1](bn.e, bn.eta)), [ex['c'] * iZ], 'hole part')
    else:
        h.eq(first(g(bn.e, bn.eta)), [(ex['cdg'] + ex['c']) * iZ],
             'electron plus hole part')
    untouched(bn)


def zero_excitation(h):
    """(c+_0 + c+_1)|I> may vanish: it contributes nothing."""
    bn = Bench(h)
    bn.prepare()
    (key, k), = h.param('es')
    s = bn.es[key]
    x = h.real('amp', 0.5, 2)
    s.eigvecs[...] = h.const(0)
    s.eigvecs[0, 0], s.eigvecs[1, 0] = x, -x
    bn.orig[key] = (s.eigvals.copy(), s.eigvecs.copy())
    f = bn.w.gf2_lanczos.build_gf_offdiag
    g = f(bn.H, bn.V, bn.es, bn.beta, 0, 1, ispin=0, egs=bn.egs, repr='cf')
    ex = expected(bn, [0, 1], 0)
    iZ = recip(partition(bn))
    h.eq(first(g(bn.e, bn.eta)), [(ex['cdg'] + ex['c']) * iZ],
         'vanishing excitations contribute nothing')


def some_zero(h):
    """Only some of the states of a sector can be excited: the others contribute nothing."""
    bn = Bench(h)
    bn.prepare()
    ispin, poss = h.param('ispin'), h.param('poss')
    (key, k), = h.param('es')
    s = bn.es[key]
    mask = sum(1 << p for p in poss)
    st = [(int(d), int(u)) for d in s.states.dw for u in s.states.up]
    for l in range(k):
        for i, x in enumerate(st):
            occ = x[1 - ispin] & mask
            # the first state has no electron excitation, the third no hole excitation
            if (l == 0 and occ != mask) or (l == 2 and occ != 0):
                s.eigvecs[i, l] = h.const(0)
    bn.orig[key] = (s.eigvals.copy(), s.eigvecs.copy())
    if len(poss) == 1:
        g = bn.w.gf_lanczos.build_gf_lanczos(bn.H, bn.V, bn.es, bn.beta, bn.egs, pos=poss[0],
                                             repr=h.param('repr'), ispin=ispin)
    else:
        g = bn.w.gf2_lanczos.build_gf_offdiag(bn.H, bn.V, bn.es, bn.beta, *poss, ispin=ispin, egs=bn.egs,
                                              repr=h.param('repr'))
    ex = expected(bn, list(poss), ispin)
    iZ = recip(partition(bn))
    h.eq(first(g(bn.e, bn.eta)), [(ex['cdg'] + ex['c']) * iZ],
         'every state that can be excited contributes')
    untouched(bn)


def defaults(h):
    """Arguments left out: first site, spin up, both parts together."""
    bn = Bench(h)
    bn.prepare()
    bn.egs = h.const(0)
    if h.param('off'):
        g = bn.w.gf2_lanczos.build_gf_offdiag(bn.H, bn.V, bn.es, bn.beta, 0, 1)
        ex = expected(bn, [0, 1], 0)
    else:
        g = bn.w.gf_lanczos.build_gf_lanczos(bn.H, bn.V, bn.es, bn.beta)
        ex = expected(bn, [0], 0)
    iZ = recip(partition(bn))
    h.eq(first(g(bn.e, bn.eta)), [(ex['cdg'] + ex['c']) * iZ], 'first site, spin up, both parts')
    untouched(bn)


def assemble(h):
    """Matrix assembly from the diagonal and (i,j) combined functions."""
    n, sep = h.param('n'), h.param('sep')
    w = h.new_world()
    val = {}

    def mk(tag):
        def f(e, eta):
            out = np.empty(np.atleast_1d(e).shape, object)
            for k in range(out.size):
                out[k] = h.cplx('%s_%d' % (tag, k))
            return h.wrap(out)
        return f

    def handed(H, V, es, beta, egs, ispin, repr):
        h.eq([H[0, 0], V[0, 0]], [H0[0, 0], V0[0, 0]], 'the Hamiltonian handed over')
        h.ok(es == es0, 'the sectors handed over')
        h.eq([beta, egs], [h.real('beta'), h.real('egs')], 'temperature and energy origin')
        h.ok(ispin == h.param('ispin') and repr == h.param('repr'), 'spin and representation')

    def diag_stub(H, V, es, beta, egs=0., pos=0, repr='cf', ispin=0, separate=False):
        handed(H, V, es, beta, egs, ispin, repr)
        if separate:
            return mk('e%d%d' % (pos, pos)), mk('h%d%d' % (pos, pos))
        return mk('g%d%d' % (pos, pos))

    w.gf_lanczos.build_gf_lanczos = diag_stub
    g2 = w.gf2_lanczos
    g2.build_gf_lanczos = diag_stub

    def off_stub(H, V, es, beta, ipos, jpos, ispin=0, egs=0., repr='cf', separate=False):
        handed(H, V, es, beta, egs, ispin, repr)
        i, j = sorted((ipos, jpos))
        if separate:
            return mk('e%d%d' % (i, j)), mk('h%d%d' % (i, j))
        return mk('g%d%d' % (i, j))
    if not hasattr(g2, 'build_gf_offdiag'):
        from symx.runner import Skip as S
        raise S('build_gf_offdiag')
    g2.build_gf_offdiag = off_stub
    H0 = h.array('H', n, n)
    V0, es0 = h.array('V', n, n), {(1, 0): 'sector'}
    if sep or h.param('ispin'):
        G = g2.build_gf2_lanczos(H0, V0, es0, h.real('beta'), h.real('egs'), h.param('ispin'), h.param('repr'), sep)
    else:                                    # one function is the default
        G = g2.build_gf2_lanczos(H0, V0, es0, h.real('beta'), h.real('egs'), h.param('ispin'), h.param('repr'))
    e, eta = h.array('w', 2), h.real('eta', 0.2, 2)

    def want(c, i, j):
        i, j = sorted((i, j))
        a = mk('%s%d%d' % (c, i, j))(e, eta)
        if i == j:
            return np.asarray(a)
        return (np.asarray(a) - np.asarray(mk('%s%d%d' % (c, i, i))(e, eta))
                - np.asarray(mk('%s%d%d' % (c, j, j))(e, eta))) * h.const(0.5)
    res = G(e, eta)
    for i in range(n):
        for j in range(n):
            if sep:
                h.eq(res[0][i, j], want('e', i, j), 'electron matrix element')
                h.eq(res[1][i, j], want('h', i, j), 'hole matrix element')
                h.eq(G[i, j](e, eta), want('e', i, j) + want('h', i, j), 'element access')
            else:
                h.eq(res[i, j], want('g', i, j), 'matrix element')
                h.eq(G[i, j](e, eta), want('g', i, j), 'element access')


def instances(tier):
    q = tier == 'quick'
    kw = dict(abstract_mul='opaque', abstract_recip=True, timeout=300 if q else 1500)
    cases = [(2, (((1, 0), 1), ((1, 1), 2))), (2, (((0, 0), 1), ((2, 2), 1))), (2, (((1, 1), 4), ((2, 1), 1), ((0, 1), 1))),
             (3, (((1, 2), 1),)), (4, (((1, 2), 2),)), (4, (((2, 1), 1),)), (4, (((2, 2), 1), ((3, 2), 1))),
             (4, (((4, 1), 1),)), (4, (((1, 0), 1),))]
    cases += [(4, (((a, b), 1 if q else 2),)) for a in range(5) for b in range(5)]
    cases += [(5, (((3, 0), 1),)), (5, (((1, 0), 1),))]
    if not q:
        cases += [(4, (((a, b), 1), ((a + 1, b), 1))) for a in range(4) for b in range(5)]
    for k, (n, es) in enumerate(cases):
        for ispin in (0, 1):
            for rep in ('cf', 'sp') if k < 9 or not q else (('cf', 'sp')[(k + ispin) % 2],):
                sep = (k + ispin + (rep == 'sp')) % 2 == 1
                for pos in ((k % n,) if q else range(n)):
                    yield Inst('gf_%d_n%d_s%d_%s_p%d' % (k, n, ispin, rep, pos), diag,
                               dict(n=n, es=es, ispin=ispin, pos=pos, repr=rep, sep=sep, L=k), **kw)
    for k, (n, es) in enumerate(cases[:4] + [(4, (((1, 2), 1),))]):
        for ispin in (0, 1):
            rep = ('cf', 'sp')[(k + ispin) % 2]
            for ij in ((0, 1), (0, n - 1)) if n > 2 else ((0, 1),):
                yield Inst('off_%d_n%d_s%d_%s_%d%d' % ((k, n, ispin, rep) + ij), offdiag,
                           dict(n=n, es=es, ispin=ispin, ij=ij, repr=rep, sep=k % 2 == 0, L=k), **kw)
    yield Inst('zero_n2', zero_excitation, dict(n=2, es=(((1, 0), 1),), repr='cf', L=0), **kw)
    for ispin in (0, 1):
        for key in ((2, 2), (1, 3)) if q else ((2, 2), (1, 3), (3, 1), (2, 1), (1, 2), (3, 2), (2, 3)):
            for poss in ((1,), (3,), (0, 2)):
                rep = ('cf', 'sp')[(ispin + poss[0]) % 2]
                a, b = key[ispin] - len(poss), 4 - key[ispin] - len(poss)
                if min(a, b) < 0:
                    continue
                yield Inst('some_%d%d_s%d_%s' % (key + (ispin, ''.join(map(str, poss)))), some_zero,
                           dict(n=4, es=((key, 4),), ispin=ispin, poss=poss, repr=rep, L=0, mv=False), **kw)
    for off in (0, 1):
        yield Inst('defaults_%d' % off, defaults, dict(n=2, es=(((1, 0), 1), ((1, 1), 2)), repr='cf', off=off,
                                                       L=1), **kw)
    for n in (1, 2, 3):
        for sep in (False, True):
            for ispin in (0, 1):
                yield Inst('matrix_n%d_%d_s%d' % (n, sep, ispin), assemble,
                           dict(n=n, sep=sep, ispin=ispin, repr=('cf', 'sp')[(n + ispin) % 2]), timeout=200)
