from .common import *
from .c10 import spin_op
from .c11 import h_exp, recip
from .c22 import charges, spins, leads, matrices

EXPLAIN = ('The second-order amplitudes of both cotunnelling modules are built from symbolic '
           'eigenvectors and spectra; every element must be the sum over all virtual electron and hole '
           'states written from second quantisation in the full Fock space, and the rate and current '
           'matrices must be assembled from the squared amplitudes and the thermal factor.')
BOUNDS = {'quick': 'n=1 (complete), n=2 with one or two states per sector; all spin pairs and sectors; '
                   'symbolic couplings, potentials, temperature and energy argument',
          'thorough': 'n=2 with two states in all sectors'}
OUTSIDE = 'larger systems; exp and 1/z are uninterpreted; thermal arguments beyond the cut 1e3; ' \
          'the intermediate-state screening of cotnl uses uniform couplings by design'


def G(h, beta, x, zero):
    """x/(exp(beta x)-1) and its limit"""
    if zero:
        return recip(beta)              # elastic, equal potentials
    h.assume(beta * x <= 1000)
    h.assume(beta * abs(x) >= 1e-18)    # the cut itself is decided by `thermal`
    if not h.sym:
        h.assume(abs(x) > 1e-6)
    return x * recip(h_exp(h, beta * x) - 1)


def op_charge(es, n, N, M, site, s, kind):
    """<M,j|op|N,i>"""
    return np.dot(np.asarray(es[(M,)].eigvecs).T,
                  np.dot(spin_op(2 * n, N, M, site + s * n, kind), np.asarray(es[(N,)].eigvecs)))


def amp_charge(h, es, n, N, s0, s1, A, ext, inj, z, f, i):
    """<f| second-order process |i>: an electron of spin s1 enters from ext, one of spin s0 leaves into inj"""
    out = h.const(0)
    E = es[(N,)].eigvals
    if N < 2 * n:
        up = [op_charge(es, n, N, N + 1, k, s1, 'cdg') for k in range(n)]
        dn = [op_charge(es, n, N + 1, N, k, s0, 'c') for k in range(n)]
        for J, EJ in enumerate(es[(N + 1,)].eigvals):
            y = sum((A[inj][k] * dn[k][f, J] for k in range(n)), 0) * sum((A[ext][k] * up[k][J, i] for k in range(n)), 0)
            out = out + y * recip(EJ - E[f] - z)
    if N > 0:
        dn = [op_charge(es, n, N, N - 1, k, s0, 'c') for k in range(n)]
        up = [op_charge(es, n, N - 1, N, k, s1, 'cdg') for k in range(n)]
        for J, EJ in enumerate(es[(N - 1,)].eigvals):
            y = sum((A[ext][k] * up[k][f, J] for k in range(n)), 0) * sum((A[inj][k] * dn[k][J, i] for k in range(n)), 0)
            out = out + y * recip(E[i] - EJ - z)
    return out


def build_nl(h):
    n, N = h.param('n'), h.param('N')
    m = h.world.cotnl
    es = charges(h, n, h.param('cap'), [x for x in (N - 1, N, N + 1) if 0 <= x <= 2 * n],
                 h.inst.params.get('sparse'))
    d = m.build_transition_elements(n, es, N)
    k = len(es[(N,)].eigvals)
    h.ok(set(d) == {((N, f), (N, i)) for f in range(k) for i in range(k)}, 'all pairs of states of the charge sector')
    return n, N, m, es, d, k


def amp_nl(h):
    n, N, m, es, d, k = build_nl(h)
    A, mu, beta = leads(h, n)
    z = h.array('z', 2)
    ext, inj = h.param('leads')
    for (F, I_), sig in d.items():
        h.ok(sorted(tuple(s.spins) for s in sig) == [(0, 0), (0, 1), (1, 0), (1, 1)], 'every pair of spins once')
        for s in sig:
            s0, s1 = s.spins
            h.eq(s.dE, es[(N,)].eigvals[F[1]] - es[(N,)].eigvals[I_[1]], 'excitation energy')
            got = s(h.wrap(np.array(z)), A, ext, inj)
            for j in range(2):
                a = amp_charge(h, es, n, N, s0, s1, A, ext, inj, z[j], F[1], I_[1])
                h.eq(got[j], a * a, 'squared sum of the electron and hole amplitudes')


def rate_nl(h):
    n, N, m, es, d, k = build_nl(h)
    A, mu, beta = leads(h, n)
    ext, inj = h.param('leads')
    E = es[(N,)].eigvals
    want, curr = {}, {}
    for f in range(k):
        for i in range(k):
            g = {}
            dE = E[f] - E[i]
            for a in (0, 1):
                for b in (0, 1):
                    t = 0
                    for s0 in (0, 1):
                        for s1 in (0, 1):
                            x = amp_charge(h, es, n, N, s0, s1, A, a, b, (dE + mu[0] + mu[1]) / 2, f, i)
                            t = t + G(h, beta, dE - mu[a] + mu[b], f == i and a == b) * (x * x)
                    g[a, b] = t
            if f != i:
                want[(N, f), (N, i)] = g[0, 0] + g[0, 1] + g[1, 0] + g[1, 1]
            curr[(N, f), (N, i)] = g[ext, inj] - g[inj, ext]
    W, T = m.build_rate_and_transition_matrices(d, beta, mu, A, ext, inj, build_matrices=False)
    for key, x in want.items():
        h.eq(W[key], x, 'cotunnelling rate')
    for key, x in curr.items():
        h.eq(T[key], x, 'current element')
    W, T = m.build_rate_and_transition_matrices(d, beta, mu, A, ext, inj)
    if k > 1:
        matrices(h, W, T, want, curr, {(N, j): j for j in range(k)})


def screen_nl(h):
    """cutoff keeps the low-lying pairs; uniform couplings see the same amplitude"""
    n, N = h.param('n'), h.param('N')
    m = h.world.cotnl
    es = charges(h, n, h.param('cap'), [x for x in (N - 1, N, N + 1) if 0 <= x <= 2 * n],
                 h.inst.params.get('sparse'))
    E = es[(N,)].eigvals
    egs = E[0]
    for x in E[1:]:
        h.assume(x >= egs)
    cut = h.real('cutoff', 0.1, 3)
    one = h.wrap(np.array([[h.const(1)] * n] * 2, object))
    z = h.array('z', 1)
    # every virtual state contributes clearly or not at all
    full = m.build_transition_elements(n, es, N)
    live = {}
    for key, sig in full.items():
        live[key] = []
        for s in sig:
            any_ = False
            for g in s.gf2:
                for y in np.asarray(g.y(one, 1, 0)).reshape(-1):
                    if y == 0:
                        continue
                    h.assume(abs(y) > 1e-9)
                    any_ = True
            if any_:
                live[key].append(tuple(s.spins))
    h.assume(True if any(live[k] for k in full) else False)
    d = m.build_transition_elements(n, es, N, egs, cut)
    for (F, I_) in full:
        f, i = F[1], I_[1]
        low = (abs(E[f] - E[i]) < cut) & (abs(E[f] - egs) < cut) & (abs(E[i] - egs) < cut)
        if (F, I_) in d:
            h.ok(low, 'only low-lying pairs are kept')
            h.ok([tuple(s.spins) for s in d[F, I_]] == live[F, I_], 'spin pairs with an amplitude')
            for s in d[F, I_]:
                a = amp_charge(h, es, n, N, s.spins[0], s.spins[1], one, 1, 0, z[0], f, i)
                h.eq(s(h.wrap(np.array(z)), one, 1, 0)[0], a * a, 'amplitude for uniform couplings')
        else:
            h.ok((~low if h.sym else not low) if live[F, I_] else True, 'low-lying pairs are kept')


def gs_nl(h):
    n = 1
    m = h.world.cotnl
    es = charges(h, n, 1)
    d = m.build_transition_elements(n, es, egs=h.real('egs'))
    N = next(iter(d))[0][0]
    for M in range(3):
        h.ok(es[(N,)].eigvals[0] <= es[(M,)].eigvals[0], 'charge of the lowest state')
    h.raises(AssertionError, lambda: m.build_transition_elements(n, es), 'neither ground state nor charge')
    d = {k: v for k, v in m.build_transition_elements(n, charges(h, n, 2), 1).items() if k[0] != (1, 0)}
    A, mu, beta = leads(h, n)
    h.raises(AssertionError, lambda: m.build_rate_and_transition_matrices(d, beta, mu, A, 0, 1), 'one-way transitions')


# -- spin-resolved sectors -----------------------------------------------------
def fock(n, pI, pJ, mode, kind):
    bI, bJ = sz_states(n, *pI), sz_states(n, *pJ)
    M = np.zeros((len(bJ), len(bI)), int)
    for i, s in enumerate(bI):
        f, sg = (f_c if kind == 'c' else f_cdg)(s, mode, 2 * n)
        if f in bJ:
            M[bJ.index(f), i] = sg
    return M


def op_spin(es, n, pI, pJ, site, s, kind):
    return np.dot(np.asarray(es[pJ].eigvecs).T, np.dot(fock(n, pI, pJ, site + s * n, kind), np.asarray(es[pI].eigvecs)))


def step(p, s, x):
    q = list(p)
    q[s] += x
    return tuple(q)


def amp_spin(h, es, n, pI, si, sj, A, ext, inj, z, f, i):
    """sj enters from ext, si leaves into inj; poles as documented in Gf2"""
    out = h.const(0)
    parts = []
    E = es[pI].eigvals
    pF = step(step(pI, sj, 1), si, -1)
    pJ = step(pI, sj, 1)
    if pJ in es and pF in es:
        up = [op_spin(es, n, pI, pJ, k, sj, 'cdg') for k in range(n)]
        dn = [op_spin(es, n, pJ, pF, k, si, 'c') for k in range(n)]
        for J, EJ in enumerate(es[pJ].eigvals):
            y = sum((A[inj][k] * dn[k][f, J] for k in range(n)), 0) * sum((A[ext][k] * up[k][J, i] for k in range(n)), 0)
            out = out + y * recip(z - (EJ - E[i]))
            parts.append(('e', y, EJ - E[i]))
    pJ = step(pI, si, -1)
    if pJ in es and pF in es:
        dn = [op_spin(es, n, pI, pJ, k, si, 'c') for k in range(n)]
        up = [op_spin(es, n, pJ, pF, k, sj, 'cdg') for k in range(n)]
        for J, EJ in enumerate(es[pJ].eigvals):
            y = sum((A[ext][k] * up[k][f, J] for k in range(n)), 0) * sum((A[inj][k] * dn[k][J, i] for k in range(n)), 0)
            out = out + y * recip(z - (E[i] - EJ))
            parts.append(('h', y, E[i] - EJ))
    return out, parts


def targets(n, pI, ispin):
    out = {}
    for si, sj in ispin:
        pF = step(step(pI, sj, 1), si, -1)
        if all(0 <= x <= n for x in pF) and (pI[sj] < n or pI[si] > 0):
            e = pI[sj] < n
            hole = pI[si] > 0
            if e or hole:
                out.setdefault(pF, []).append((si, sj))
    return out


ALL = [(0, 0), (0, 1), (1, 0), (1, 1)]


def amp_sz(h):
    n, pI = h.param('n'), tuple(h.param('p'))
    m = h.world.cotunneling
    es = spins(h, n, h.param('cap'), h.inst.params.get('sparse'))
    from collections import defaultdict
    d = defaultdict(list)
    m.project_sector(n, pI[0], pI[1], es, d)
    tg = targets(n, pI, ALL)
    A, mu, beta = leads(h, n)
    z = h.array('z', 2)
    ext, inj = h.param('leads')
    want = {(pF + (f,), pI + (i,)): pairs for pF, pairs in tg.items()
            for f in range(len(es[pF].eigvals)) for i in range(len(es[pI].eigvals))}
    h.ok(set(d) == set(want), 'all transitions that keep the charge, and no others')
    for (F, I_), pairs in want.items():
        sig = d[F, I_]
        h.ok(len(sig) == len(pairs), 'one amplitude per pair of spins')
        for s, (si, sj) in zip(sig, pairs):
            h.eq(s.dE, es[F[:2]].eigvals[F[2]] - es[I_[:2]].eigvals[I_[2]], 'excitation energy')
            got = s(h.wrap(np.array(z)), A, ext, inj)
            for j in range(2):
                a, _ = amp_spin(h, es, n, pI, si, sj, A, ext, inj, z[j], F[2], I_[2])
                h.eq(got[j], a * a, 'squared sum of the electron and hole amplitudes')


def ground_sz(h):
    """build_transition_elements, rate and current matrices"""
    n, ngs = h.param('n'), [tuple(x) for x in h.param('ngs')]
    m = h.world.cotunneling
    es = spins(h, n, h.param('cap'), h.inst.params.get('sparse'))
    egs = h.real('egs')
    for key, s in es.items():
        if key in ngs:
            s.eigvals[0] = egs
        for E in s.eigvals[1 if key in ngs else 0:]:
            h.assume(E > egs + 1e-6)
    reach = {p for g in ngs for p in ((g[0], g[1]), (g[0] - 1, g[1] + 1), (g[0] + 1, g[1] - 1))
             if all(0 <= x <= n for x in p)}
    cut = h.real('cutoff', 0.1, 5) if h.param('cut') else None
    d = m.build_transition_elements(n, egs, es, cut)
    A, mu, beta = leads(h, n)
    want, curr, keys = {}, {}, set()
    ext, inj = h.param('leads')
    for pI in reach:
        for pF, pairs in targets(n, pI, ALL).items():
            if pF not in reach:
                continue
            for f in range(len(es[pF].eigvals)):
                for i in range(len(es[pI].eigvals)):
                    key = pF + (f,), pI + (i,)
                    keys.add(key)
                    Ef, Ei = es[pF].eigvals[f], es[pI].eigvals[i]
                    dE = Ef - Ei
                    if cut is not None:
                        keep = (abs(dE) < cut) & (abs(Ef - egs) < cut) & (abs(Ei - egs) < cut)
                        h.ok(keep if key in d else ~keep if h.sym else not keep, 'cutoff keeps the low-lying pairs')
                    if key not in d:
                        continue
                    g = {}
                    for a in (0, 1):
                        for b in (0, 1):
                            t = 0
                            for si, sj in pairs:
                                x, _ = amp_spin(h, es, n, pI, si, sj, A, a, b, (dE + mu[0] + mu[1]) / 2, f, i)
                                t = t + G(h, beta, dE - mu[a] + mu[b], a == b and (key[0] == key[1] or (f == i == 0 and pF in ngs and pI in ngs))) * (x * x)
                            g[a, b] = t
                    if key[0] != key[1]:
                        want[key] = g[0, 0] + g[0, 1] + g[1, 0] + g[1, 1]
                    curr[key] = g[ext, inj] - g[inj, ext]
    h.ok(set(d) <= keys and (cut is not None or set(d) == keys), 'all pairs of states reached by spin flips')
    ids = sorted({k[0] for k in curr})
    if len(ids) < 1:
        return
    ix = {k: j for j, k in enumerate(ids)}
    W = m.build_rate_matrix(d, beta, mu, A, approx_integral=True)
    T = m.build_transition_matrix(d, beta, mu, A, ext, inj, approx_integral=True)
    matrices(h, np.asarray(W), np.asarray(T), want, curr, ix)


def sectors(h):
    n = h.param('n')
    m = h.world.cotunneling
    keys = [(a, b) for a in range(n + 1) for b in range(n + 1)]
    ok = lambda p: all(0 <= x <= n for x in p)
    for ngs in h.param('ngs'):
        ngs = [tuple(x) for x in ngs]
        reach = {p for g in ngs for p in (g, (g[0] - 1, g[1] + 1), (g[0] + 1, g[1] - 1)) if ok(p)}
        act = reach | {q for p in reach for q in (step(p, s, x) for s in (0, 1) for x in (1, -1)) if ok(q)}
        got = {tuple(int(y) for y in x) for x in m.find_active_sectors(list(ngs))}
        h.ok({p for p in got if ok(p)} == act, 'ground-state, spin-flip and virtual sectors')
        neig = np.asarray(m.get_active_neig(n, list(ngs), 2))
        h.ok(neig.shape == ((n + 1) ** 2,), 'one entry per sector')
        h.ok([int(x) for x in neig] == [2 if k in act else 0 for k in keys],
             'eigenpairs requested in exactly the active sectors')


def thermal(h):
    """The thermal factor, its limit and its tail."""
    for mod in ('cotnl', 'cotunneling'):
        m = getattr(h.world, mod)
        g = h.fn('cotnl.G') if mod == 'cotnl' else getattr(getattr(m, '_Sigma', None), 'G', None)
        if g is None:
            continue
        beta, z = h.real('beta', 0, 30, strict=True), h.real('z', -50, 50)
        if not h.sym:
            h.assume(beta * abs(z) < 500)
        y = g(beta, z)
        if beta * z > 1000:
            e = h_exp(h, beta * z)
            h.assume(e > 10 ** 300)
            d = y - z / (e - 1)
            h.ok((d < 1e-200) & (d > -1e-200), 'tail of the thermal factor')
        elif beta * abs(z) < 1e-18:
            h.assume(z == 0)
            h.eq(y * beta, h.const(1), 'limit of the thermal factor')
        else:
            if not h.sym:
                h.assume(abs(z) > 1e-6)
            e = h_exp(h, beta * z)
            h.assume(e != 1)
            h.eq(y * (e - 1), z, 'thermal factor')


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul=True, abstract_recip=True, timeout=150 if q else 1200)
    for N in range(3):
        for l in ((0, 1), (1, 0), (0, 0)):
            yield Inst('amp_nl_n1_N%d_%d%d' % ((N,) + l), amp_nl, dict(n=1, N=N, cap=2, leads=l), **ab)
        yield Inst('rate_nl_n1_N%d' % N, rate_nl, dict(n=1, N=N, cap=2, leads=(0, 1) if N % 2 else (1, 0)), **ab)
    for N in range(5):
        yield Inst('amp_nl_n2_N%d' % N, amp_nl, dict(n=2, N=N, cap=2, sparse=2, leads=(0, 1)), **ab)
    yield Inst('rate_nl_n2_N2', rate_nl, dict(n=2, N=2, cap=2, sparse=1, leads=(0, 1)), **ab)
    yield Inst('screen_nl_n1_N1', screen_nl, dict(n=1, N=1, cap=1), **ab)
    for N in (0, 2):
        yield Inst('screen_nl_n1_N%d' % N, screen_nl, dict(n=1, N=N, cap=2), **ab)
    yield Inst('gs_nl', gs_nl, {}, **ab)
    for p in ((0, 0), (1, 0), (0, 1), (1, 1)):
        for l in ((0, 1), (1, 0), (1, 1)):
            yield Inst('amp_sz_n1_%d%d_%d%d' % (p + l), amp_sz, dict(n=1, p=p, cap=1, leads=l), **ab)
    for p in ((1, 1), (1, 0), (0, 2), (2, 1), (2, 2), (0, 0)):
        yield Inst('amp_sz_n2_%d%d' % p, amp_sz, dict(n=2, p=p, cap=2, sparse=2, leads=(1, 0)), **ab)
    for n, ngs in ((1, [(1, 0), (0, 1)]), (1, [(0, 0)]), (1, [(1, 1)]), (1, [(1, 0)]), (2, [(1, 1)]), (2, [(1, 0), (0, 1)])):
        t = 'n%d_%s' % (n, '_'.join('%d%d' % x for x in ngs))
        yield Inst('gs_sz_' + t, ground_sz, dict(n=n, ngs=ngs, cap=1, sparse=2 if n == 1 or not q else 1, cut=False, leads=(0, 1) if len(ngs) > 1 else (1, 0)), **ab)
        if n == 1 or ngs == [(1, 1)]:
            yield Inst('cut_sz_' + t, ground_sz, dict(n=n, ngs=ngs, cap=1, sparse=None if n == 1 else 1, cut=True, leads=(0, 1)), **ab)
    yield Inst('gs_sz_n3_doublet', ground_sz, dict(n=3, ngs=[(2, 1), (1, 2)], cap=1, sparse=1, cut=False, leads=(0, 1)), **ab)
    for n in (1, 2, 3):
        keys = [(a, b) for a in range(n + 1) for b in range(n + 1)]
        yield Inst('sectors_n%d' % n, sectors, dict(n=n, ngs=[[k] for k in keys] + [[x, y] for x in keys for y in keys if x < y]))
    yield Inst('thermal', thermal, {}, timeout=60)
