from .common import *
from .c11 import h_exp, recip

EXPLAIN = ('Thermal and per-state occupations, the ground-state occupation used by the DED solver and '
           'the entropy ingredients run on symbolic eigenvectors, spectra and temperature; the result '
           'must be the Boltzmann average of the number operators for row- and column-major '
           'eigenvectors, and the eigenspace must come back unchanged.')
BOUNDS = {'quick': 'n<=3 sites, up to three sectors with up to four states each, both memory orders, '
                   'with and without weights',
          'thorough': 'n=4 sectors, complete n=2 spectra'}
OUTSIDE = 'larger sectors; exp and 1/z are uninterpreted'


def order(h, v, o):
    if o == 'C':
        return v.copy()
    x = np.asfortranarray(np.asarray(v))
    return h.wrap(x) if h.sym else x


def fill(h, es, o):
    for key, (s, k) in es.items():
        k = min(k, s.d)
        s.eigvals = h.array('E%d%d' % key, k)
        s.eigvecs = order(h, h.array('v%d%d' % key, s.d, k), o)


def number(h, v, pu, pd, n, site, spin):
    """sum_i |v_i|^2 n_site,spin(i) from the definition of the basis order."""
    bu, bd = basis(n, pu), basis(n, pd)
    t = 0
    for j, d in enumerate(bd):
        for i, u in enumerate(bu):
            if ((d if spin else u) >> site) & 1:
                x = v[i + j * len(bu)]
                t = t + x * x
    return t


def states(h):
    n, pu, pd, k, o = (h.param(x) for x in ('n', 'pu', 'pd', 'k', 'order'))
    s = sector(h, n, pu, pd)
    v = order(h, h.array('v', s.d, k), o)
    v0 = np.array(v, copy=True)
    co = h.array('c', k) if h.param('co') else None
    up, dw = h.world.observs.get_evecs_occupation(v, s.states.up, s.states.dw, n, co)
    for spin, got in ((0, up), (1, dw)):
        h.ok(np.shape(got) == (n, k), 'occupation per site and state')
        want = [[number(h, v0[:, l], pu, pd, n, site, spin) * (co[l] if co is not None else 1)
                 for l in range(k)] for site in range(n)]
        h.eq(got, np.array(want, object), 'spin occupation of every site and state')
    h.ok(v.shape == v0.shape, 'eigenvectors unchanged')
    h.eq(np.asarray(v).reshape(v0.shape), v0, 'eigenvectors unchanged')
    if co is None:
        for site in range(n):
            x = h.world.dedlib.get_occupation(h.wrap(np.ascontiguousarray(v0[:, 0])), s.states.up, s.states.dw, site)
            h.eq(x, number(h, v0[:, 0], pu, pd, n, site, 0) + number(h, v0[:, 0], pu, pd, n, site, 1),
                 'total occupation of the site')


def thermal(h):
    n, o = h.param('n'), h.param('order')
    es = {key: (sector(h, n, *key), k) for key, k in h.param('es')}
    fill(h, es, o)
    sp = {key: s for key, (s, k) in es.items()}
    keep = {key: (np.array(s.eigvals, copy=True), np.array(s.eigvecs, copy=True)) for key, s in sp.items()}
    beta, egs = h.real('beta', 0, 3), h.real('egs')
    up, dw = h.world.observs.get_occupation(sp, egs, beta, n)
    Z, tot = 0, [[0] * n, [0] * n]
    for key, (E, v) in keep.items():
        for l in range(len(E)):
            w = h_exp(h, -beta * (E[l] - egs))
            Z = Z + w
            for spin in (0, 1):
                for site in range(n):
                    tot[spin][site] = tot[spin][site] + w * number(h, v[:, l], key[0], key[1], n, site, spin)
    h.eq(up, [x * recip(Z) for x in tot[0]], 'thermal spin-up occupations')
    h.eq(dw, [x * recip(Z) for x in tot[1]], 'thermal spin-down occupations')
    h.ok(list(sp) == list(keep), 'eigenspace unchanged')
    for key, (E, v) in keep.items():
        h.ok(sp[key].eigvecs.shape == v.shape, 'eigenspace unchanged')
        h.eq(np.asarray(sp[key].eigvecs).reshape(v.shape), v, 'eigenspace unchanged')
        h.eq(sp[key].eigvals, E, 'eigenspace unchanged')


def entropy(h):
    n = h.param('n')
    es = {key: (sector(h, n, *key), k) for key, k in h.param('es')}
    fill(h, es, 'C')
    sp = {key: s for key, (s, k) in es.items()}
    beta, egs = h.real('beta', 0, 3), h.real('egs')
    f = h.fn('dedlib._get_entropy_params')
    E, Z = f(sp, egs, beta)
    Z2, E2 = 0, 0
    for s in sp.values():
        for x in s.eigvals:
            w = h_exp(h, -beta * (x - egs))
            Z2, E2 = Z2 + w, E2 + (x - egs) * w
    h.eq(Z, Z2, 'partition function')
    h.eq(E, E2 * recip(Z2), 'mean energy above the ground state')


def bath(h):
    """Spectrum of the non-interacting bath: every configuration energy once."""
    n = h.param('n')
    ek = h.array('ek', n)
    for i in range(n - 1):
        h.assume(ek[i] < ek[i + 1])
    es, egs = h.world.espace.build_non_interacting_espace(ek.copy())
    h.ok(sorted(es) == [(a, b) for a in range(n + 1) for b in range(n + 1)], 'all sectors')
    tot = 0
    for (a, b), s in es.items():
        want = [sum((ek[i] for i in range(n) if (u >> i) & 1), h.const(0))
                + sum((ek[i] for i in range(n) if (d >> i) & 1), h.const(0))
                for d in basis(n, b) for u in basis(n, a)]
        got = list(np.asarray(s.eigvals))
        h.ok(len(got) == len(want), 'one energy per configuration')
        # equal as multisets: same power sums
        for p in (1, 2, 3):
            h.eq(sum((x ** p for x in got), h.const(0)), sum((x ** p for x in want), h.const(0)),
                 'configuration energies')
        for x, y in zip(got, got[1:]):
            h.ok(x <= y, 'ascending energies')
        for y in want:
            h.ok(egs <= y, 'lowest energy')
        tot += len(got)
    h.ok(tot == 4 ** n, 'all configurations')


def instances(tier):
    q = tier == 'quick'
    kw = dict(abstract_mul=True, abstract_recip=True, timeout=200 if q else 1500)
    for n in (1, 2, 3) + (() if q else (4,)):
        for pu in range(n + 1):
            for pd in range(n + 1):
                for k in (1, 2):
                    i = pu + pd + k
                    yield Inst('states_n%d_%d%d_k%d' % (n, pu, pd, k), states,
                               dict(n=n, pu=pu, pd=pd, k=k, order='FC'[i % 2], co=(i // 2) % 2), **kw)
    for n, pu, pd in ((2, 1, 1), (3, 1, 2)):
        for o in 'FC':
            for co in (0, 1):
                yield Inst('states2_n%d_%s%d' % (n, o, co), states,
                           dict(n=n, pu=pu, pd=pd, k=3, order=o, co=co), **kw)
    cases = [(1, (((0, 0), 1), ((1, 0), 1), ((0, 1), 1), ((1, 1), 1))),
             (2, (((1, 1), 4), ((2, 1), 2))), (3, (((1, 2), 2), ((3, 3), 1))), (2, (((0, 2), 1),))]
    if not q:
        cases += [(2, tuple(((a, b), 4) for a in range(3) for b in range(3))), (3, (((2, 1), 4), ((1, 1), 4)))]
    for i, (n, es) in enumerate(cases):
        for o in 'FC':
            yield Inst('thermal_%d_%s' % (i, o), thermal, dict(n=n, es=es, order=o), **kw)
        yield Inst('entropy_%d' % i, entropy, dict(n=n, es=es), **kw)
    for n in (1, 2) + (() if q else (3,)):
        yield Inst('bath_n%d' % n, bath, dict(n=n), timeout=200 if q else 1500)
