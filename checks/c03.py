from .common import *

EXPLAIN = ('Index maps executed with symbolic indices, words and sorted arrays: binary search, the '
           'up/down composite index and its inverse, sector numbering, adjacent-sector arithmetic '
           'with out-of-space rejection, bit-vector representations, and degeneracy grouping.')
BOUNDS = {'quick': 'binary search: every strictly ascending array of length 0..9 of 32-bit words and '
                   'every 32-bit target; composite index: every index with symbolic dimensions below '
                   '2^4 and concrete dimensions up to 70 with indices below 2^16; sectors n<=6; '
                   'representations of every word of n<=6 bits',
          'thorough': 'binary search up to length 17; composite index with symbolic dimensions below 2^6, concrete up to 252; n<=9'}
OUTSIDE = 'longer arrays'


def bins(h):
    L = h.param('L')
    a = [h.int('a%d' % i, 0, 2 ** 32 - 1) for i in range(L)]
    s = h.int('s', 0, 2 ** 32 - 1)
    for x, y in zip(a, a[1:]):
        h.assume(x < y)
    arr = h.uints(a)
    if not h.sym:
        s = np.uint32(s)
    r = h.world.lookup.binsearch(arr, s)
    r = int(r)
    if L == 0:
        h.eq(r, -1, 'empty array')
    if r == -1:
        for x in a:
            h.ok(x != s, 'a present word is found')
    else:
        h.ok(0 <= r < L, 'index in range')
        if 0 <= r < L:
            h.eq(a[r], int(s) if not h.sym else s, 'index points to the word')


def spin(h):
    b, dup = h.param('bits'), h.param('dup')
    lk = h.world.lookup
    D = dup if dup else h.int('dup', 1, (1 << b) - 1)
    i = h.int('i', 0, (1 << (2 * b)) - 1)
    dwn = 1 << (2 * b)
    iu, idw = lk.get_spin_indices(i, D, dwn)
    h.ok((iu >= 0) & (iu < D), 'up index in range')
    h.eq(lk.get_state_index(iu, idw, D), i, 'composite index round trip')
    h.ok(idw >= 0, 'down index non-negative')


def spin2(h):
    b, dup = h.param('bits'), h.param('dup')
    lk = h.world.lookup
    u, d = h.int('u', 0, dup - 1), h.int('d', 0, (1 << b) - 1)
    i = lk.get_state_index(u, d, dup)
    h.eq(i, u + d * dup, 'composite index')
    a, c = lk.get_spin_indices(i, dup, 1 << b)
    h.eqs([(a, u), (c, d)], 'inverse of the composite index')


def sect(h):
    n = h.param('n')
    lk = h.world.lookup
    u, d = h.pick('u', 0, n), h.pick('d', 0, n)
    i = lk.get_sector_index(n, u, d)
    h.eq(i, u * (n + 1) + d, 'sector index')
    r = lk.get_num_spins(int(i), n)
    h.eq([int(r[0]), int(r[1])], [u, d], 'sector index round trip')


def moves(h):
    """Adjacent sectors, rejecting moves out of the Hilbert space."""
    n = h.param('n')
    sec = h.world.sector
    u, d = h.int('u', 0, n), h.int('d', 0, n)
    sp = h.param('sp')
    x = u if sp == 0 else d
    try:
        r = sec.get_cdg_sector(n, u, d, sp)
    except sec.OutOfHilbertError:
        h.eq(x, n, 'addition rejected only when full')
    else:
        h.eq([r[0], r[1]], [u + 1 - sp, d + sp], 'addition')
        h.ok(x < n, 'addition into a full sector is rejected')
    try:
        r = sec.get_c_sector(u, d, sp)
    except sec.OutOfHilbertError:
        h.eq(x, 0, 'removal rejected only when empty')
    else:
        h.eq([r[0], r[1]], [u - 1 + sp, d - sp], 'removal')
        h.ok(x > 0, 'removal from an empty sector is rejected')
    for bad in (-1, 2):
        h.raises(Exception, lambda: sec.get_cdg_sector(n, u, d, bad), 'bad spin rejected')
        h.raises(Exception, lambda: sec.get_c_sector(u, d, bad), 'bad spin rejected')


def reps(h):
    n = h.param('n')
    lk = h.world.lookup
    s = h.pick('s', 0, (1 << n) - 1)
    r = lk.binrep(s, n)
    h.eq([int(x) for x in r], [(s >> k) & 1 for k in range(n)], 'entry k is the occupation of level k')
    t = lk.binrep(s, n, 'str')
    h.eq([int(x) for x in t], [(s >> k) & 1 for k in range(n)], 'string form')
    h.eq(int(lk.intrep(r)), s, 'array representation inverts')
    h.eq(int(lk.intrep(t)), s, 'string representation inverts')
    h.raises(ValueError, lambda: lk.binrep(s, n, 'nope'), 'unknown format rejected')


def shifted(h):
    """Wide words: any three neighbouring levels among many."""
    n = h.param('n')
    lk = h.world.lookup
    for k in range(n - 2):
        s = h.pick('s%d' % (k % 2), 0, 7) << k
        bits = [(s >> j) & 1 for j in range(n)]
        for r in (lk.binrep(np.uint32(s), n), lk.binrep(s, n, 'str')):
            h.eq([int(x) for x in r], bits, 'entry k is the occupation of level k')
            h.eq(int(lk.intrep(r)), s, 'the representation inverts')


def count(h):
    """Particle number of a word: the occupied ones among the first n levels."""
    n, b = h.param('n'), h.param('b')
    s = h.int('s', 0, 2 ** b - 1)
    if not h.sym:
        s = np.uint32(s)
    r = h.world.lookup.count_bits(s, n)
    t = h.int('s', 0, 2 ** b - 1)
    want = 0
    for k in range(min(n, b)):
        want = want + ((t >> k) & 1)
    h.eq(int(r) if not h.sym else r, want, 'number of occupied levels')


def instances(tier):
    q = tier == 'quick'
    for n, b in ((0, 3), (1, 1), (3, 3), (4, 6), (8, 8), (12, 12), (28, 28), (32, 32)) + (() if q else ((16, 16), (24, 24))):
        yield Inst('count_n%d_%d' % (n, b), count, dict(n=n, b=b), timeout=100 if q else 1500)
    for L in range(0, 10 if q else 18):
        yield Inst('binsearch_L%d' % L, bins, dict(L=L), timeout=40 if q else 600)
    yield Inst('spin_sym', spin, dict(bits=4 if q else 6, dup=0), timeout=200 if q else 3000)
    for dup in (1, 2, 3, 6, 10, 20, 70) if q else (1, 2, 3, 6, 10, 15, 20, 35, 70, 126, 252):
        yield Inst('spin_d%d' % dup, spin, dict(bits=8, dup=dup), timeout=100)
        yield Inst('spininv_d%d' % dup, spin2, dict(bits=8, dup=dup), timeout=100)
    for n in (1, 2, 4, 6) if q else range(1, 10):
        yield Inst('sector_n%d' % n, sect, dict(n=n), timeout=100)
        for sp in (0, 1):
            yield Inst('move_n%d_s%d' % (n, sp), moves, dict(n=n, sp=sp), timeout=100)
    for n in (12, 32):
        yield Inst('repwide_n%d' % n, shifted, dict(n=n), timeout=100)
    for n in (1, 2, 3, 6) if q else range(1, 10):
        yield Inst('rep_n%d' % n, reps, dict(n=n), timeout=100)
