from .common import *

EXPLAIN = ('The in-place bit-pattern successor is executed on a symbolic 32-bit state and the '
           'generated basis arrays are queried with a symbolic state: the solver decides that the '
           'successor is the next larger word of equal population, and that every word of the '
           'right population occurs, in strictly ascending order.')
BOUNDS = {'quick': 'successor: every word below 2^16 (every word below 2^16 against a free third '
                   'word); bases: every n<=9 and every particle number, membership query over '
                   'all words of n bits; dimensions n<=15',
          'thorough': 'successor: words below 2^28 / 2^20; bases n<=12; dimensions n<=16'}
OUTSIDE = 'n > 12 levels for whole bases; words of 31 and 32 bits'


def step(h):
    n = h.param('n')
    x = h.int('x', 1, (1 << n) - 1)
    a = h.uints([x, 0])
    h.fn('sector.permutations')(a)
    y = a[1]
    h.ok(y > x, 'successor is larger')
    h.eq(popcount(y, n + 2), popcount(x, n + 2), 'successor keeps the particle number')
    h.ok(y < 2 ** (n + 1), 'successor fits the next level')


def between(h):
    n = h.param('n')
    x = h.int('x', 1, (1 << n) - 1)
    z = h.int('z', 1, (1 << (n + 1)) - 1)
    h.assume(popcount(z, n + 2) == popcount(x, n + 2))
    a = h.uints([x, 0])
    h.fn('sector.permutations')(a)
    y = a[1]
    bad = (x < z) & (z < y)
    h.ok(~bad if isinstance(bad, B) else not bad, 'no state of the sector is skipped')


def chain(h):
    """k consecutive states from a symbolic start."""
    n, k = h.param('n'), h.param('k')
    x = h.int('x', 1, (1 << n) - 1)
    a = h.uints([x] + [0] * k)
    h.fn('sector.permutations')(a)
    h.eq(a[0], x, 'first state kept')
    for i in range(k):
        h.ok(a[i + 1] > a[i], 'strictly ascending')
        h.eq(popcount(a[i + 1], n + k + 2), popcount(x, n + k + 2), 'particle number kept')


def gen(h):
    n = h.param('n')
    s = h.int('s', 0, (1 << n) - 1)
    for p in range(n + 1):
        st = h.world.sector.generate_states(n, p)
        h.eq(st.size, math.comb(n, p), 'basis size n=%d p=%d' % (n, p))
        h.ok(str(st.dtype) in ('uint32', 'object'), 'unsigned words')
        for a, b in zip(st[:-1], st[1:]):
            h.ok(bool(a < b), 'ascending n=%d p=%d' % (n, p))
        if h.sym:
            import z3
            mem = z3.Or(*[s.t == int(x) for x in st]) if isinstance(s, I) else \
                z3.BoolVal(int(s) in [int(x) for x in st])
            pc = core.as_i(popcount(s, n)).t == p
            h.ok(B(mem == pc), 'membership n=%d p=%d' % (n, p))
        else:
            h.ok((s in [int(x) for x in st]) == (popcount(s) == p),
                 'membership n=%d p=%d' % (n, p))


def dims(h):
    n = h.param('n')
    nup, ndw = h.pick('nup', 0, n), h.pick('ndw', 0, n)
    h.eq(h.world.sector.get_sector_dim(n, nup, ndw), math.comb(n, nup) * math.comb(n, ndw),
         'sector dimension')
    if n <= 7:
        sct = sector(h, n, nup, ndw)
        h.eq(sct.d, math.comb(n, nup) * math.comb(n, ndw), 'dimension of the sector object')
        h.eq([int(x) for x in sct.states.up], basis(n, nup), 'up basis')
        h.eq([int(x) for x in sct.states.dw], basis(n, ndw), 'down basis')


def ndims(h):
    n = h.param('n')
    N = h.pick('N', 0, 2 * n)
    sct = sector(h, n, N)
    h.eq(sct.d, math.comb(2 * n, N), 'dimension of the N sector')
    h.eq([int(x) for x in sct.states], basis(2 * n, N), 'N basis')


def numbers(h):
    """Sector numbering is a bijection, in the order in which sectors are listed."""
    from .c03 import sect
    sect(h)
    n = h.param('n')
    lk = h.world.lookup
    got = [int(lk.get_sector_index(n, a, b)) for a in range(n + 1) for b in range(n + 1)]
    h.ok(got == list(range((n + 1) ** 2)), 'sector indices are consecutive')


def instances(tier):
    q = tier == 'quick'
    for n in (1, 2, 3, 5, 8) if q else range(1, 12):
        yield Inst('numbers_n%d' % n, numbers, dict(n=n), timeout=100)
    yield Inst('step', step, dict(n=16 if q else 28), timeout=200 if q else 2000)
    yield Inst('between', between, dict(n=16 if q else 20), timeout=200 if q else 4000)
    for k in (2, 3):
        yield Inst('chain%d' % k, chain, dict(n=9 if q else 16, k=k), timeout=150 if q else 3000)
    for n in range(1, 10 if q else 13):
        yield Inst('basis_n%d' % n, gen, dict(n=n), timeout=150)
    for n in (1, 2, 3, 4, 5, 6, 7, 9, 12, 15) if q else range(1, 17):
        yield Inst('dim_n%d' % n, dims, dict(n=n), timeout=150)
    for n in (1, 2, 3, 4) if q else range(1, 7):
        yield Inst('ndim_n%d' % n, ndims, dict(n=n), timeout=150)
