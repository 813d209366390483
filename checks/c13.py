from .common import *
from symx import mem, native
from symx.mem import TRACE
from .c12 import cfrac

EXPLAIN = ('The Cython kernel (interpreted from its parse tree) is executed on symbolic coefficients '
           'and complex frequencies; its value must be the ratio of the continuants (equivalently '
           'b0 times the first diagonal element of the resolvent of the tridiagonal matrix), parallel '
           'iterations must be independent, and with non-negative weights the result is causal.')
BOUNDS = {'quick': 'depth 1..4, up to 3 frequencies; causality for depth <=2',
          'thorough': 'depth up to 6, causality depth 3'}
OUTSIDE = 'frequencies on a pole (division by zero)'
NATIVE = ['edpyt/continued_fraction.pyx (Cython parse tree)']


def value(h):
    n, m = h.param('n'), h.param('m')
    mod = h.world.load('edpyt._continued_fraction')
    a, b = h.array('a', n), h.array('b', n)
    e, eta = h.array('w', m), h.array('eta', m, lo=0.1, hi=3)
    if h.param('field'):
        eta = [h.const(0)] * m       # a rational identity on the real axis holds everywhere
    z = h.wrap(np.array([Cx(x, y) if h.sym else complex(x, y) for x, y in zip(e, eta)], object))
    a0, b0, z0 = a.copy(), b.copy(), z.copy()
    TRACE.log = []
    r = np.asarray(mod.continued_fraction(z, a, b))
    h.ok(r.shape == (() if m == 1 else (m,)), 'shape of the result')
    r = r.reshape(-1)
    for k in range(m):
        if not h.param('field'):
            h.eq(r[k], cfrac(z[k], list(a), list(b)), 'value of the continued fraction')
            continue
        # continuants D_k = (z-a_k) D_{k+1} - b_{k+1} D_{k+2}
        D = [1, z[k] - a[n - 1]]
        for i in range(n - 2, -1, -1):
            D.append((z[k] - a[i]) * D[-1] - b[i + 1] * D[-2])
        D0, D1 = D[-1], D[-2]
        h.eq(r[k] * D0, b[0] * D1, 'continued fraction equals the ratio of continuants')
    h.eq(a, a0, 'coefficients unchanged')
    h.eq(b, b0, 'coefficients unchanged')
    h.eq(z, z0, 'frequencies unchanged')
    bad = mem.races(TRACE.log)
    if h.sym:
        import z3
        h.ok(B(z3.Not(z3.Or(*[t for _, _, t in bad]))) if bad else True,
             'parallel iterations are independent')
    else:
        nat = native.ext('_continued_fraction')
        if nat is not None:
            h.eq(np.asarray(nat.continued_fraction(z, a, b)).reshape(-1), r, 'compiled kernel')


def scalar(h):
    mod = h.world.load('edpyt._continued_fraction')
    a, b = h.array('a', 2), h.array('b', 2)
    x, y = h.real('w'), h.real('eta', 0.1, 2)
    z = Cx(x, y) if h.sym else complex(x, y)
    r = np.asarray(mod.continued_fraction(z, a, b))
    h.ok(r.shape == (), 'a scalar frequency gives a scalar')
    h.eq(r.reshape(-1)[0], cfrac(z, list(a), list(b)), 'value')
    h.raises(ValueError, lambda: mod.continued_fraction(h.array('q', 2), a, b), 'real frequencies are rejected')
    h.raises((ValueError, TypeError), lambda: mod.continued_fraction(z, h.carray('ca', 2), b),
             'complex coefficients are rejected')


def wrapper(h):
    """gf_lanczos.continued_fraction(a, b)(e, eta) and spectral(l, q)(e, eta)"""
    n, m = h.param('n'), h.param('m')
    a, b = h.array('a', n), h.array('b', n)
    e, eta = h.array('w', m), h.real('eta', 0.1, 2)
    gl = h.world.gf_lanczos
    z = [Cx(x, eta) if h.sym else complex(x, eta) for x in e]
    f = h.fn('gf_lanczos.continued_fraction')(a, b)
    r = np.asarray(f(e, eta)).reshape(-1)
    h.eq(r, [cfrac(x, list(a), list(b)) for x in z], 'closure evaluates the continued fraction')
    g = h.fn('gf_lanczos.spectral')(a, b)
    r = np.asarray(g(e, eta)).reshape(-1)
    h.eq(r, [sum((b[i] / (x - a[i]) for i in range(1, n)), b[0] / (x - a[0])) for x in z],
         'closure evaluates the sum over poles')


def causal(h):
    n = h.param('n')
    mod = h.world.load('edpyt._continued_fraction')
    a = h.array('a', n)
    b = h.array('b', n, lo=0)
    x, y = h.real('w'), h.real('eta', 0.01, 10)
    z = h.wrap(np.array([Cx(x, y) if h.sym else complex(x, y)], object))
    r = np.asarray(mod.continued_fraction(z, a, b)).reshape(-1)[0]
    h.ok(r.imag <= 0, 'spectral function is non-negative')


def instances(tier):
    q = tier == 'quick'
    ab = dict(abstract_mul='opaque', abstract_recip=True)
    for n, m in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (3, 3), (4, 1), (5, 2)) + (() if q else ((6, 1), (8, 2))):
        yield Inst('cf_n%d_m%d' % (n, m), value, dict(n=n, m=m, field=False), timeout=30 if q else 300, **ab)
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 1), (3, 2), (4, 1)) + (() if q else ((4, 2), (5, 1), (6, 1))):
        yield Inst('field_n%d_m%d' % (n, m), value, dict(n=n, m=m, field=True), timeout=100 if q else 2000)
    yield Inst('scalar', scalar, {}, timeout=30, **ab)
    for n, m in ((1, 1), (2, 2), (3, 2)):
        yield Inst('closure_n%d_m%d' % (n, m), wrapper, dict(n=n, m=m), timeout=30, **ab)
    for n in (1, 2) if q else (1, 2, 3):
        yield Inst('causal_n%d' % n, causal, dict(n=n), timeout=200 if q else 2000)
