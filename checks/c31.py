from .common import *

EXPLAIN = ('The printed occupation of a configuration is built on symbolic bit patterns; the spectrum '
           'print-out and the charge diagram run on symbolic energies in every relative order; the drawings of '
           'orbitals and spin densities run on symbolic amplitudes, every circle and line recorded.')
BOUNDS = {'quick': 'up to 3 sites (every pattern of both spins); up to 3 sectors with up to 2 energies each; '
                   'drawings: up to 4 atoms, real states of 2 and 3 sites',
          'thorough': 'up to 4 sites, 4 sectors'}
OUTSIDE = 'number formatting of the energies; rendering by matplotlib'
STUBS = ['matplotlib axes: record what is drawn', 'ase neighbour list: given bonds']


def text(sup, sdw, n):
    out = []
    for i in range(n):
        c = ('\u2191' if sup >> i & 1 else '') + ('\u2193' if sdw >> i & 1 else '')
        out.append(c or 'o')
    return '|' + ','.join(out) + '>'


def fock(h):
    n = h.param('n')
    w = h.new_world()
    a, b = h.int('up', 0, (1 << n) - 1), h.int('dw', 0, (1 << n) - 1)
    got = w.eshow.fock(a, b, n)
    A = B_ = 0
    for i in range(n):
        A |= int(bool((a >> i) & 1 == 1)) << i
        B_ |= int(bool((b >> i) & 1 == 1)) << i
    h.ok(got == text(A, B_, n), 'configuration as text')


def sectors(h, w, n, keys):
    es, rows = {}, []
    k = 0
    for key, m in keys:
        s = w.espace.build_empty_sector(n, *key)
        E = h.array('E' + ''.join(map(str, key)), m, lo=-5, hi=5)
        if h.inst.params.get('deg'):        # one level throughout
            E = h.wrap(np.array([h.real('E', -5, 5)] * m))
        s.eigvals = E
        v = np.zeros((s.d, m))
        for i in range(s.d):
            for j in range(m):
                k += 1
                v[i, j] = (k % 17 - 8) / 8 + k / 1000
        s.eigvecs = v
        es[key] = s
        if len(key) == 2:
            cf = [(u, d) for d in basis(n, key[1]) for u in basis(n, key[0])]
        else:
            cf = [(c & ((1 << n) - 1), c >> n) for c in basis(2 * n, key[0])]
        for j in range(m):
            t = ' + '.join(str(np.float64(v[i, j]).round(3)) + text(u, d, n) for i, (u, d) in enumerate(cf))
            rows.append((key, E[j], t))
    return es, rows


def eprint(h):
    n = h.param('n')
    w = h.new_world()
    es, rows = sectors(h, w, n, h.param('keys'))
    for i in range(len(rows)):
        for j in range(i):
            if not h.param('deg'):
                h.assume(abs(rows[i][1] - rows[j][1]) > 0.01)
    out = w.eshow.eprint
    del w.prints[:]
    out(es, n)
    blocks = [b for b in ''.join(w.prints).split('\n\n') if b.strip()]
    h.ok(len(blocks) == len(rows), 'one entry per eigenstate')
    last = None
    left = list(rows)
    for p in blocks:
        hit = [r for r in left if p.startswith('%s: ' % (r[0],)) and p.rstrip().endswith(r[2])
               and len(p.split('|')) == len(('x' + r[2]).split('|'))]
        h.ok(len(hit) == 1, 'every state once, with its sector and its vector')
        if len(hit) != 1:
            return
        left.remove(hit[0])
        if not h.sym:
            h.ok(('%.3E' % hit[0][1]) in p, 'energy of the state')
        if last is not None:
            h.ok(last <= hit[0][1], 'sorted by energy')
        last = hit[0][1]


def pdisplay(h):
    n = h.param('n')
    w = h.new_world(stubs={'matplotlib.pyplot': None})
    es, rows = sectors(h, w, n, h.param('keys'))
    calls = []

    class Ax:
        def hlines(self, y, xmin, xmax, *a, **k):
            y, xmin, xmax = ([v] if not hasattr(v, '__len__') else list(v) for v in (y, xmin, xmax))
            xmin, xmax = (v * len(y) if len(v) == 1 else v for v in (xmin, xmax))
            calls.extend(zip(y, xmin, xmax))
            h.ok(len(y) == len(xmin) == len(xmax), 'every line has its two ends')
    w.eshow.pdisplay(es, Ax())
    h.ok(len(calls) == len(rows), 'one line per energy')
    y, lo, hi = zip(*calls)
    want = {}
    for key, e, _ in rows:
        want.setdefault(sum(key), []).append(e)
    got = {}
    for e, a, b in zip(y, lo, hi):
        c = (a + b) / 2
        h.ok(abs(c - round(c)) < 1e-9 and 0 < b - a < 1, 'line around its charge')
        got.setdefault(int(round(c)), []).append(e)
    h.ok(set(got) == set(want), 'charges')
    for c in want:
        h.eq(got[c], want[c], 'energies of the charge')


class Atom:
    def __init__(self, index):
        self.index = index


class Atoms:
    """What the drawings use of ase.Atoms."""

    def __init__(self, positions, index=None):
        self.positions = positions
        self.index = list(range(len(positions))) if index is None else index

    def __len__(self):
        return len(self.positions)

    def __iter__(self):
        return (Atom(i) for i in range(len(self)))

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            return Atom(int(i))
        return Atoms(self.positions[i])

    def get_positions(self):
        return np.array(self.positions)


class Circle:
    def __init__(self, xy, radius=5, color=None, **k):
        color = next((c for c in (color, k.get('facecolor'), k.get('fc')) if c is not None), None)
        self.xy, self.radius = xy, radius
        self.color = {'r': 'red', 'b': 'blue', 'k': 'black', 'grey': 'gray'}.get(color, color)


class Canvas:
    def __init__(self):
        self.lines, self.circles = [], []

    def plot(self, x, y, *a, **k):
        self.lines.append((list(x), list(y)))

    def add_artist(self, c):
        self.circles.append(c)
        return c

    add_patch = add_artist

    def axis(self, *a, **k):
        pass

    set_aspect = set_axis_off = axis


def canvas(h, m, bonds):
    """World with stand-ins for matplotlib and ase; the drawing module."""
    w = h.new_world(stubs={'matplotlib.pyplot': None})
    plt = w.ext['matplotlib.pyplot']
    axes = Canvas()
    plt.Circle = Circle
    plt.subplots = lambda *a, **k: (None, axes)
    plt.gca = lambda: axes
    nb = {i: [] for i in range(m)}
    for i, j in bonds:          # ase lists every bond at both ends, and the atom itself
        nb[i].append(j)
        nb[j].append(i)

    class NL:
        def get_neighbors(self, i):
            return np.array([i] + nb[i], dtype=int), np.zeros((len(nb[i]) + 1, 3), int)
    mod = type(plt)('ase.neighborlist')
    mod.build_neighbor_list = lambda atoms, *a, **k: NL()
    top = type(plt)('ase')
    top.neighborlist = mod
    w.ext['ase'], w.ext['ase.neighborlist'] = top, mod
    return w, axes


def skeleton_ok(h, axes, pos, bonds, ax):
    want = [sorted([tuple(pos[i, list(ax)]), tuple(pos[j, list(ax)])]) for i, j in bonds]
    got = [sorted(zip(map(float, x), map(float, y))) for x, y in axes.lines]
    h.ok(sorted(got) == sorted(want), 'one line per bond')


def shown(h, axes, want, ax, pos):
    """want: (site, radius, colour or None): circles expected, in any order."""
    h.ok(len(axes.circles) == len(want), 'one circle per value')
    left = list(axes.circles)
    for site, r, colour in want:
        at = [c for c in left if tuple(map(float, c.xy)) == tuple(pos[site, list(ax)])
              and (colour is None or c.color == colour)]
        h.ok(len(at) >= 1, 'circle at its own site')
        if not at:
            return
        h.eq(at[0].radius, r, 'size of the circle')
        left.remove(at[0])


def draw_orbital(h):
    m, plane, sub = h.param('m'), h.param('plane'), h.param('subset')
    bonds = h.param('bonds')
    w, axes = canvas(h, m, bonds)
    pos = np.array([[i * 1.5 + .25, (i * i) % 5 - 1., 7. - i] for i in range(m)])
    sites = list(range(m)) if sub is None else list(sub)
    v = h.array('v', len(sites), lo=-1, hi=1)
    for x in v:
        h.assume(abs(x) > 0.001)
    scale = h.real('scale', 0.5, 5)
    f = w.cotools.draw_feynman_dyson_orbital
    out = f(Atoms(pos), v, subset=None if sub is None else list(sub),
            axes=axes if h.param('own') else None, plane=plane, scale=scale)
    h.ok(out is axes, 'drawn on the given axes')
    ax = ['xyz'.index(c) for c in plane]
    skeleton_ok(h, axes, pos, bonds, ax)
    h.ok(len(axes.circles) == len(sites), 'one circle per site')
    for k, i in enumerate(sites):
        at = [c for c in axes.circles if tuple(map(float, c.xy)) == tuple(pos[i, ax])]
        h.ok(len(at) == 1, 'circle at its own site')
        if len(at) != 1:
            return
        h.eq(at[0].radius, scale * v[k] * v[k], 'size: weight of the site')
        h.ok(at[0].color == ('red' if v[k] > 0 else 'blue'), 'colour: sign of the amplitude')


def draw_spins(h):
    n, key, plane, extra = h.param('n'), h.param('key'), h.param('plane'), h.param('extra')
    bonds = h.param('bonds')
    m = n + extra
    w, axes = canvas(h, m, bonds)
    pos = np.array([[i * 1.5 + .25, (i * i) % 5 - 1., 7. - i] for i in range(m)])
    sec = w.espace.build_empty_sector(n, *key)
    v = h.array('v', sec.d, lo=-1, hi=1)
    sub = list(range(extra, m)) if extra else None
    f = w.cotools.draw_spin_density
    f(Atoms(pos), v.reshape(-1, 1) if h.param('column') else v, sec.states, n, subset=sub,
      axes=axes, plane=plane)
    ax = ['xyz'.index(c) for c in plane]
    skeleton_ok(h, axes, pos, bonds, ax)
    cf = [(u, d) for d in basis(n, key[1]) for u in basis(n, key[0])]
    want = []
    for s in (0, 1):
        for i in range(n):
            want.append((i + extra, sum(x * x for x, c in zip(v, cf) if c[s] >> i & 1), s))
    # spin up is drawn in black, spin down in gray
    shown(h, axes, [(i, r, ('black', 'gray')[s]) for i, r, s in want], ax, pos)


def instances(tier):
    dr = [(2, 'xy', None, ((0, 1),), 1), (3, 'zx', None, ((0, 1), (1, 2)), 0),
          (4, 'yz', (1, 3), ((0, 1), (0, 3), (2, 3)), 1), (3, 'xz', (2, 0, 1), (), 1)]
    for k, (m, plane, sub, bonds, own) in enumerate(dr):
        yield Inst('orbital_%d' % k, draw_orbital, dict(m=m, plane=plane, subset=sub, bonds=bonds, own=own),
                   timeout=80)
    sp = [(2, (1, 1), 'xy', 0, ((0, 1),), 0), (2, (2, 1), 'yz', 1, ((0, 1), (1, 2)), 1),
          (3, (1, 2), 'zx', 0, ((0, 2), (1, 2)), 0), (3, (2, 0), 'xy', 1, (), 0)]
    for k, (n, key, plane, extra, bonds, col) in enumerate(sp):
        yield Inst('spins_%d' % k, draw_spins, dict(n=n, key=key, plane=plane, extra=extra, bonds=bonds,
                                                    column=col), timeout=80)
    q = tier == 'quick'
    for n in (1, 2, 3) + (() if q else (4,)):
        yield Inst('fock_%d' % n, fock, dict(n=n), timeout=200)
    sets = [(1, (((0, 0), 1), ((1, 0), 1), ((1, 1), 1))),
            (2, (((1, 0), 2), ((0, 1), 1), ((1, 1), 1))),
            (2, (((1, 1), 2), ((2, 1), 1), ((0, 2), 1))),
            (3, (((1, 2), 2), ((2, 1), 1)))]
    nsets = [(1, (((1,), 2), ((2,), 1))), (2, (((1,), 2), ((2,), 2))), (4, (((1,), 1), ((2,), 1)))]
    sets.append((4, (((2, 1), 1),)))
    for i, (n, keys) in enumerate(sets + nsets):
        yield Inst('eprint_%d' % i, eprint, dict(n=n, keys=keys, deg=0), timeout=80)
        yield Inst('eprintdeg_%d' % i, eprint, dict(n=n, keys=keys, deg=1), timeout=80)
        yield Inst('pdisplay_%d' % i, pdisplay, dict(n=n, keys=keys), timeout=80)
