from .common import *

EXPLAIN = ('The fermionic primitives are executed on a symbolic occupation word for every site '
           'pair: result word, sign, rejection of impossible actions and the canonical '
           'anticommutation relations are decided by the solver over all words.')
BOUNDS = {'quick': 'every occupation word of n = 1..8, 12, 16, 24, 31 levels (up to 31 for single operators, 8 for '
                   'pairs), every site / site pair',
          'thorough': 'every occupation word of up to 31 levels for single operators, 16 for pairs'}
OUTSIDE = 'a 32nd level'


def above(s, pos, n):
    t = 0
    for k in range(pos + 1, n):
        t = t + ((s >> k) & 1)
    return 1 - 2 * (t % 2)


def single(h):
    n = h.param('n')
    ops = h.world.operators
    pos = h.pick('pos', 0, n - 1)
    s = h.int('s', 0, (1 << n) - 1)
    occ = (s >> pos) & 1
    full = bool(occ == 1)
    h.eq(core.as_i(ops.check_full(s, pos)) if h.sym else int(ops.check_full(s, pos)), int(full),
         'occupied check')
    h.eq(int(bool(ops.check_empty(s, pos))), int(not full), 'empty check')
    h.eq(int(bool(ops.n_op(s, pos))), int(full), 'number operator')
    h.eq(int(bool(ops.ndg_op(s, pos))), int(not full), 'hole operator')
    good, bad = (ops.c, ops.cdg) if full else (ops.cdg, ops.c)
    sgn, f = good(s, pos, n)
    h.eq(f, s ^ (1 << pos), 'resulting word')
    h.eq(sgn, above(s, pos, n), 'fermionic sign')
    h.raises(Exception, lambda: bad(s, pos, n), 'impossible action is rejected')


def flips(h):
    n = h.param('n')
    ops = h.world.operators
    pos = h.pick('pos', 0, n - 1)
    s = h.int('s', 0, (1 << n) - 1)
    h.eq(h.fn('operators.flip')(s, pos), s ^ (1 << pos), 'flip')
    h.eq(h.fn('operators.fsgn')(s, pos, n), above(s, pos, n), 'sign string')


def tryop(f, s, pos, n):
    """(sign, word) or None when the action annihilates the state."""
    if s is None:
        return None
    try:
        return f(s, pos, n)
    except Exception:
        return None


def anti(h):
    """Products of two operators anticommute (delta for the mixed pair)."""
    n, kind = h.param('n'), h.param('kind')
    ops = h.world.operators
    i, j = h.pick('i', 0, n - 1), h.pick('j', 0, n - 1)
    s = h.int('s', 0, (1 << n) - 1)
    A, Bo = {'cc': (ops.c, ops.c), 'dd': (ops.cdg, ops.cdg), 'cd': (ops.c, ops.cdg)}[kind]

    def prod(f, a, g, b):
        r = tryop(g, s, b, n)
        if r is None:
            return None
        q = tryop(f, r[1], a, n)
        return None if q is None else (r[0] * q[0], q[1])
    x, y = prod(A, i, Bo, j), prod(Bo, j, A, i)
    if kind == 'cd' and i == j:
        h.ok((x is None) != (y is None), 'exactly one ordering survives')
        sg, f = x or y
        h.eq(sg, 1, 'anticommutator is one')
        h.eq(f, s, 'anticommutator keeps the state')
        return
    if i == j:
        h.ok(x is None and y is None, 'squares vanish')
        return
    h.ok((x is None) == (y is None), 'both orderings vanish together')
    if x is not None:
        h.eq(x[1], y[1], 'same state')
        h.eq(x[0] + y[0], 0, 'opposite signs')


def hop(h):
    """cdgc(s, i, j) = c+_i c_j on states where it does not vanish."""
    n = h.param('n')
    ops = h.world.operators
    i, j = h.pick('i', 0, n - 1), h.pick('j', 0, n - 1)
    if i == j:
        h.ok(True, 'trivial')
        return
    s = h.int('s', 0, (1 << n) - 1)
    h.assume(((s >> j) & 1) == 1)
    h.assume(((s >> i) & 1) == 0)
    s1, f1 = ops.c(s, j, n)
    s2, f2 = ops.cdg(f1, i, n)
    sg, f = h.fn('operators.cdgc')(s, i, j)
    h.eq(f, f2, 'hopping word')
    h.eq(sg, s1 * s2, 'hopping sign')
    h.eq(f, (s ^ (1 << i)) ^ (1 << j), 'hopping word, bitwise')
    h.eq(h.fn('operators.get_parity')(s, i, j), h.fn('operators.get_parity')(s, j, i),
         'parity is symmetric')


def count(h):
    n = h.param('n')
    s = h.int('s', 0, (1 << n) - 1)
    h.eq(h.world.lookup.count_bits(s, n), popcount(s, n), 'bit count')


def instances(tier):
    q = tier == 'quick'
    ns = (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 31) if q else range(1, 32)
    for n in ns:
        yield Inst('single_n%d' % n, single, dict(n=n), timeout=200)
    for n in (2, 5, 12, 31) if q else range(1, 32):
        yield Inst('flip_n%d' % n, flips, dict(n=n), timeout=200)
        yield Inst('count_n%d' % n, count, dict(n=n), timeout=200)
    for n in (2, 3, 4, 6, 8) if q else (2, 3, 4, 5, 6, 7, 8, 10, 12, 16):
        for k in ('cc', 'dd', 'cd'):
            yield Inst('anti_%s_n%d' % (k, n), anti, dict(n=n, kind=k), timeout=200 if q else 1500)
        yield Inst('hop_n%d' % n, hop, dict(n=n), timeout=200 if q else 1500)
