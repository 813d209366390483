from .common import *
from .c10 import spin_op, full_op
from .c11 import h_exp, recip

EXPLAIN = ('The transition elements of both sequential-tunnelling modules are built from symbolic '
           'eigenvectors and spectra and turned into rate and current matrices for symbolic leads; every '
           'entry must be the golden-rule rate written from second quantisation, on the transitions '
           'between neighbouring charge states and nowhere else.')
BOUNDS = {'quick': 'n=1 (complete), n=2 with up to two states per sector; every charge sector; two leads '
                   'with symbolic couplings, potentials and temperature; cutoff and ground-state selection',
          'thorough': 'n=2 with three states per sector, n=3 with one'}
OUTSIDE = 'larger systems; exp and 1/z are uninterpreted; Fermi arguments beyond 100 (replaced by 0)'


def vectors(h, name, d, k, sparse=None, seed=0):
    """Symbolic eigenvectors; with `sparse`, that many symbolic components each."""
    v = h.array(name, d, k)
    if sparse and sparse < d:
        import random
        rng = random.Random('%s:%s' % (name, seed))
        for j in range(k):
            keep = rng.sample(range(d), sparse)
            for i in range(d):
                if i not in keep:
                    v[i, j] = h.const(0)
    return v


def charges(h, n, cap, only=None, sparse=None, seed=0):
    es = {}
    for N in range(2 * n + 1) if only is None else only:
        s = sector(h, n, N)
        k = min(cap, s.d)
        s.eigvals, s.eigvecs = h.array('E%d' % N, k), vectors(h, 'v%d' % N, s.d, k, sparse, seed)
        es[(N,)] = s
    return es


def spins(h, n, cap, sparse=None, seed=0):
    es = {}
    for a in range(n + 1):
        for b in range(n + 1):
            s = sector(h, n, a, b)
            k = min(cap, s.d)
            s.eigvals, s.eigvecs = h.array('E%d%d' % (a, b), k), vectors(h, 'v%d%d' % (a, b), s.d, k, sparse, seed)
            es[a, b] = s
    return es


def fermi(h, x):
    return recip(h_exp(h, x) + 1)


def add_charge(es, n, N):
    """amplitudes [spin][site] of <N+1,j|c+|N,i>"""
    I_, J_ = es[(N,)], es[(N + 1,)]
    return [[np.dot(np.asarray(J_.eigvecs).T, np.dot(spin_op(2 * n, N, N + 1, k + s * n, 'cdg'), np.asarray(I_.eigvecs)))
             for k in range(n)] for s in (0, 1)]


def leads(h, n):
    A = h.array('A', 2, n)
    mu = [h.real('mu0'), h.real('mu1')]
    beta = h.real('beta', 0, 3, strict=True)
    return A, mu, beta


def rate(h, amp, a, E, beta, mu, add):
    """golden rule: electron from (add) or into the lead"""
    y = sum((amp[k] * a[k] for k in range(len(a))), 0)
    x = beta * (E - mu)
    h.assume(x <= 100)
    h.assume(x >= -100)
    return y * y * fermi(h, x if add else -x)


def nl(h):
    """edpyt.sqtnl on charge sectors."""
    n, N = h.param('n'), h.param('N')
    m = h.world.sqtnl
    es = charges(h, n, h.param('cap'))
    A, mu, beta = leads(h, n)
    if N is None:
        d = {}
        for N_ in range(2 * n + 1):
            d.update(m.build_transition_elements(n, es, N_))
        Ns = list(range(2 * n))
    else:
        d = m.build_transition_elements(n, es, N)
        Ns = [x for x in (N - 1, N) if 0 <= x < 2 * n]
    want, curr = {}, {}
    inj = h.param('inject')
    for N_ in Ns:
        amp = add_charge(es, n, N_)
        for j in range(len(es[(N_ + 1,)].eigvals)):
            for i in range(len(es[(N_,)].eigvals)):
                E = es[(N_ + 1,)].eigvals[j] - es[(N_,)].eigvals[i]
                up = [sum((rate(h, [amp[s][k][j, i] for k in range(n)], A[l], E, beta, mu[l], True)
                           for s in (0, 1)), 0) for l in (0, 1)]
                dn = [sum((rate(h, [amp[s][k][j, i] for k in range(n)], A[l], E, beta, mu[l], False)
                           for s in (0, 1)), 0) for l in (0, 1)]
                a, b = (N_ + 1, j), (N_, i)
                want[a, b], want[b, a] = up[0] + up[1], dn[0] + dn[1]
                curr[a, b], curr[b, a] = -up[inj], dn[inj]
    h.ok(set(d) == set(want), 'all transitions that change the charge by one, and no others')
    W, T = m.build_rate_and_transition_matrices(d, beta, mu, A, 1 - inj, inj, build_matrices=False)
    for k, x in want.items():
        h.eq(W[k], x, 'golden-rule rate')
    for k, x in curr.items():
        h.eq(T[k], x, 'current through the injecting lead')
    ids = sorted({k[0] for k in want})
    ix = {k: i for i, k in enumerate(ids)}
    W, T = m.build_rate_and_transition_matrices(d, beta, mu, A, 1 - inj, inj)
    matrices(h, W, T, want, curr, ix)


def matrices(h, W, T, want, curr, ix):
    z = len(ix)
    h.ok(W.shape == (z, z), 'one row per state')
    M = np.empty((z, z), object)
    M[...] = h.const(0)
    C = M.copy()
    for (f, i), x in want.items():
        M[ix[f], ix[i]] = x
        M[ix[i], ix[i]] = M[ix[i], ix[i]] - x
    for (f, i), x in curr.items():
        C[ix[f], ix[i]] = x
    h.eq(np.asarray(W), M, 'rate matrix in the order of the states')
    h.eq(np.asarray(W).sum(0), [h.const(0)] * z, 'probability is conserved')
    if T is not None:
        h.eq(np.asarray(T), C, 'current matrix in the order of the states')


def gs(h):
    """N=None takes the charge of the lowest state."""
    n = 1
    m = h.world.sqtnl
    es = charges(h, n, 1)
    d = m.build_transition_elements(n, es, egs=h.real('egs'))
    got = {k[0][0] for k in d} | {k[1][0] for k in d}
    for N in range(3):
        low = True
        for M in range(3):
            if M != N:
                low = (es[(N,)].eigvals[0] < es[(M,)].eigvals[0]) & B(True) if h.sym and low is True else \
                    ((es[(N,)].eigvals[0] < es[(M,)].eigvals[0]) & low)
        if low:
            want = {x for x in (N - 1, N, N + 1) if 0 <= x <= 2 * n}
            h.ok(got == want, 'transitions start from the ground-state charge')
    h.raises(AssertionError, lambda: m.build_transition_elements(n, es), 'neither ground state nor charge')


def missing(h):
    """one direction only is refused"""
    n = 1
    m = h.world.sqtnl
    es = charges(h, n, 2)
    A, mu, beta = leads(h, n)
    d = m.build_transition_elements(n, es, 0)
    drop = h.pick('drop', 0, 1)
    d = {k: v for k, v in d.items() if k[0][0] != drop}
    h.raises(AssertionError, lambda: m.build_rate_and_transition_matrices(d, beta, mu, A, 1, 0), 'one-way transitions')


def tail(h):
    f = h.fn('sqtnl.nF')
    x = h.real('x')
    y = f(x)
    e = h_exp(h, x)
    h.assume(e > 0)
    if x > 100:
        h.assume(e > 10 ** 43)        # exp(100) = 2.7e43 and exp is increasing
    else:
        h.eq(y, recip(e + 1), 'Fermi function')
    d = y - recip(e + 1)
    h.ok((d < 1e-40) & (d > -1e-40), 'Fermi function, tail replaced by zero')


def add_spin(es, n, key, s):
    to = list(key)
    to[s] += 1
    I_, J_ = es[key], es[tuple(to)]
    return tuple(to), [np.dot(np.asarray(J_.eigvecs).T, np.dot(full_op(n, list(key), to, s, k, 'cdg'), np.asarray(I_.eigvecs)))
                       for k in range(n)]


def table(h, es, n, keys, cond=None):
    """(state above, state below) -> (amplitudes, energy)"""
    out = {}
    for key in keys:
        for s in (0, 1):
            to = list(key)
            to[s] += 1
            if tuple(to) not in keys:
                continue
            to, amp = add_spin(es, n, key, s)
            for j in range(len(es[to].eigvals)):
                for i in range(len(es[key].eigvals)):
                    out[to + (j,), key + (i,)] = ([amp[k][j, i] for k in range(n)],
                                                  es[to].eigvals[j] - es[key].eigvals[i])
    return out


def check_spin(h, m, d, tab, n, A, mu, beta, lead=0):
    h.ok(set(d) == set(tab) | {(b, a) for a, b in tab}, 'all transitions by one electron, and no others')
    want, curr = {}, {}
    for (a, b), (amp, E) in tab.items():
        up = [rate(h, amp, A[l], E, beta, mu[l], True) for l in (0, 1)]
        dn = [rate(h, amp, A[l], E, beta, mu[l], False) for l in (0, 1)]
        want[a, b], want[b, a] = up[0] + up[1], dn[0] + dn[1]
        curr[a, b], curr[b, a] = up[lead], -dn[lead]
        h.eq(d[a, b](A[lead], beta, mu[lead]), up[lead], 'addition rate')
        h.eq(d[b, a](A[lead], beta, mu[lead]), dn[lead], 'removal rate')
    ids = sorted({k[0] for k in want})
    ix = {k: i for i, k in enumerate(ids)}
    matrices(h, m.build_rate_matrix(d, beta, mu, A), m.build_transition_matrix(d, beta, mu[lead], A[lead]),
             want, curr, ix)


def sz(h):
    """edpyt.sqtunneling, all sectors."""
    n = h.param('n')
    m = h.world.sqtunneling
    es = spins(h, n, h.param('cap'), h.param('sparse'))
    A, mu, beta = leads(h, n)
    d = {}
    for key in es:
        m.project_sector(n, key[0], key[1], es, d)
    keys = list(es)
    check_spin(h, m, d, table(h, es, n, keys), n, A, mu, beta, h.param('lead'))


def active(n, ngs):
    out = set(ngs)
    for a, b in ngs:
        out |= {(a + x, b + y) for x, y in ((1, 0), (-1, 0), (0, 1), (0, -1))
                if 0 <= a + x <= n and 0 <= b + y <= n}
    return out


def ground(h):
    """build_transition_elements: sectors reached from the ground state."""
    n, ngs = h.param('n'), [tuple(x) for x in h.param('ngs')]
    m = h.world.sqtunneling
    es = spins(h, n, h.param('cap'))
    egs = h.real('egs')
    for key, s in es.items():
        for E in s.eigvals:
            h.assume(E >= egs)
        if key in ngs:
            h.assume(s.eigvals[0] == egs)
            s.eigvals[0] = egs if h.sym else s.eigvals[0]
        else:
            for E in s.eigvals:
                h.assume(E > egs + 1e-6)
    A, mu, beta = leads(h, n)
    cut = h.real('cutoff', 0, 5, strict=True) if h.param('cut') else None
    d = m.build_transition_elements(n, egs, es, cut)
    act = active(n, ngs)
    tab = table(h, es, n, [k for k in es if k in act])
    if cut is None:
        h.ok(set(d) == set(tab) | {(b, a) for a, b in tab}, 'transitions among the reached sectors')
    else:
        for (a, b), (amp, E) in tab.items():
            keep = (abs(E) < cut) & (abs(es[a[:2]].eigvals[a[2]] - egs) < cut) & \
                   (abs(es[b[:2]].eigvals[b[2]] - egs) < cut)
            for k in ((a, b), (b, a)):
                h.ok(keep if k in d else ~keep if h.sym else not keep,
                     'cutoff keeps the transitions between low-lying states')
        h.ok(set(d) <= set(tab) | {(b, a) for a, b in tab}, 'transitions among the reached sectors')
    for (a, b), (amp, E) in tab.items():
        if (a, b) in d:
            h.eq(d[a, b](A[0], beta, mu[0]), rate(h, amp, A[0], E, beta, mu[0], True), 'addition rate')
        if (b, a) in d:
            h.eq(d[b, a](A[0], beta, mu[0]), rate(h, amp, A[0], E, beta, mu[0], False), 'removal rate')


def sectors(h):
    """Sectors to diagonalise for a set of ground-state sectors."""
    n = h.param('n')
    m = h.world.sqtunneling
    for ngs in h.param('ngs'):
        ngs = [tuple(x) for x in ngs]
        got = m.find_active_sectors(n, list(ngs))
        h.ok({tuple(int(y) for y in x) for x in got} == active(n, ngs), 'ground-state sectors and neighbours')
        neig = np.asarray(m.get_active_neig(n, list(ngs), 3))
        keys = [(a, b) for a in range(n + 1) for b in range(n + 1)]
        h.ok(neig.shape == ((n + 1) ** 2,), 'one entry per sector')
        h.ok([int(x) for x in neig] == [3 if k in active(n, ngs) else 0 for k in keys],
             'eigenpairs requested in exactly the active sectors')


def moves(h):
    m = h.world.sqtunneling
    dn = (-1, 1)[h.pick('dn', 0, 1)]
    sp = (-1, 1)[h.pick('spin', 0, 1)]
    up, dw = m.getdud(dn, sp)
    h.ok((up, dw) == ((dn, 0) if sp == 1 else (0, dn)), 'change of the spin-resolved numbers')
    h.ok(m.getdns(up, dw) == (dn, sp), 'inverse map')


def odd(h):
    m = h.world.sqtunneling
    es = spins(h, 1, 1)
    A, mu, beta = leads(h, 1)
    d = {}
    for key in es:
        m.project_sector(1, key[0], key[1], es, d)
    del d[list(d)[h.pick('drop', 0, len(d) - 1)]]
    h.raises(AssertionError, lambda: m.build_rate_matrix(d, beta, mu, A), 'one-way transition')
    h.raises(AssertionError, lambda: m.build_transition_matrix(d, beta, mu[0], A[0]), 'one-way transition')


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul=True, abstract_recip=True, timeout=100 if q else 800)
    yield Inst('nl_n1_all', nl, dict(n=1, N=None, cap=2, inject=0), **ab)
    yield Inst('nl_n1_all_i1', nl, dict(n=1, N=None, cap=2, inject=1), **ab)
    for N in range(3):
        yield Inst('nl_n1_N%d' % N, nl, dict(n=1, N=N, cap=2, inject=N % 2), **ab)
    for N in range(5):
        yield Inst('nl_n2_N%d' % N, nl, dict(n=2, N=N, cap=2 if q else 3, inject=N % 2), **ab)
    yield Inst('nl_gs', gs, {}, **ab)
    yield Inst('nl_missing', missing, {}, **ab)
    yield Inst('nl_tail', tail, {}, timeout=60)
    for l in (0, 1):
        yield Inst('sz_n1_l%d' % l, sz, dict(n=1, cap=1, lead=l, sparse=None), **ab)
        yield Inst('sz_n2_l%d' % l, sz, dict(n=2, cap=2, lead=l, sparse=2 if q else None), **ab)
    for n, ngs in ((1, [(0, 0)]), (1, [(1, 0), (0, 1)]), (1, [(1, 1)]), (2, [(1, 1)]), (2, [(1, 0), (0, 1)]), (2, [(2, 2)])):
        t = 'n%d_%s' % (n, '_'.join('%d%d' % x for x in ngs))
        yield Inst('gs_' + t, ground, dict(n=n, ngs=ngs, cap=1, cut=False), **ab)
        if n == 1:
            yield Inst('cut_' + t, ground, dict(n=n, ngs=ngs, cap=1, cut=True), **ab)
    for n in (1, 2, 3):
        keys = [(a, b) for a in range(n + 1) for b in range(n + 1)]
        yield Inst('sectors_n%d' % n, sectors, dict(n=n, ngs=[[k] for k in keys] + [[x, y] for x in keys for y in keys if x < y]))
    yield Inst('moves', moves, {})
    yield Inst('odd', odd, {}, **ab)
    if not q:
        yield Inst('nl_n3_N3', nl, dict(n=3, N=3, cap=1, inject=0), **ab)
        yield Inst('sz_n3', sz, dict(n=3, cap=1, lead=0, sparse=3), **ab)
