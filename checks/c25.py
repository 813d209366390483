from .common import *
import cmath

EXPLAIN = ('The stationary solution is computed on rate matrices with symbolic rates whose spectrum is '
           'known in closed form; the eigensolver is replaced by that spectrum in every order of the '
           'eigenvalues, with arbitrarily scaled eigenvectors. The result must be the probability '
           'vector annihilated by the rate matrix.')
BOUNDS = {'quick': '2 to 4 states; general two-state rates, uniform relaxation towards a symbolic '
                   'distribution, two-rate rings (complex spectrum), decoupled pairs of decays; every order of the eigenvalues',
          'thorough': 'up to 6 states'}
OUTSIDE = 'accuracy of the eigensolver; rate matrices with more than one stationary state'
STUBS = ['numpy.linalg.eig: closed-form eigenpairs in any order and scale']


def pairs(h, kind, n):
    """W, stationary distribution, eigenpairs [(w, v)], stationary first; also of W^T."""
    one, zero = h.const(1), h.const(0)
    if kind == 'two':
        a, b = h.real('a', 0.01, 1000), h.real('b', 0.01, 1000)
        W = [[-a, b], [a, -b]]
        p = [b / (a + b), a / (a + b)]
        R_ = [(zero, [b, a]), (-(a + b), [one, -one])]
        L_ = [(zero, [one, one]), (-(a + b), [a, -b])]
    elif kind == 'relax':
        g = h.real('g', 0.01, 1000)
        q = [h.real('q%d' % i, 0.01, 100) for i in range(n)]
        s = sum(q[1:], q[0])
        p = [x / s for x in q]
        W = [[g * (q[i] - (s if i == j else 0)) for j in range(n)] for i in range(n)]
        R_ = [(zero, list(q))] + [(-g * s, [one if j == i else -one if j == i + 1 else zero for j in range(n)])
                                  for i in range(n - 1)]
        L_ = [(zero, [one] * n)] + [(-g * s, [q[i + 1] if j == i else -q[i] if j == i + 1 else zero
                                              for j in range(n)]) for i in range(n - 1)]
    elif kind == 'trap':                # everything decays into state k
        k = n - 1
        r = [h.real('r%d' % i, 0.01, 100) for i in range(n - 1)]
        W = [[zero] * n for _ in range(n)]
        for j in range(n - 1):
            W[j][j], W[k][j] = -r[j], r[j]
        p = [zero] * (n - 1) + [one]
        R_ = [(zero, list(p))] + [(-r[j], [one if i == j else -one if i == k else zero for i in range(n)])
                                  for j in range(n - 1)]
        L_ = [(zero, [one] * n)] + [(-r[j], [one if i == j else zero for i in range(n)]) for j in range(n - 1)]
    else:                               # ring: a forward, b backward
        a, b = h.real('a', 0.01, 100), h.real('b', 0.01, 100)
        W = [[zero] * n for _ in range(n)]
        for j in range(n):
            W[j][j] = W[j][j] - a - b
            W[(j + 1) % n][j] = W[(j + 1) % n][j] + a
            W[(j - 1) % n][j] = W[(j - 1) % n][j] + b
        p = [h.const(Fraction(1, n)) if h.sym else 1 / n] * n
        R_, L_ = [], []
        for m in range(n):
            om = [cmath.exp(2j * cmath.pi * m * i / n) for i in range(n)]
            c = om[1]
            w = ((a + b) * (c.real - 1), (b - a) * c.imag)
            mk = (lambda x, y: Cx(x, y)) if h.sym else complex
            w = mk(*w) if m else mk(zero, zero)
            v = [mk(h.const(x.real), h.const(x.imag)) for x in om]
            R_.append((w, v))
            L_.append((w, [x.conjugate() for x in v]))
    return W, p, R_, L_


def stationary(h):
    kind, n, perm = h.param('kind'), h.param('n'), h.param('perm')
    W, p, R_, L_ = pairs(h, kind, n)
    W = h.wrap(np.array(W, object)) if h.sym else np.array(W, float)
    W0 = W.copy()
    sc = [h.real('s%d' % i) for i in range(n)]
    for s in sc:
        h.assume(s * s > 0.0001)
    used = []

    def eig(M):
        same = all(_same(M[i, j], W0[i, j]) for i in range(n) for j in range(n))
        tr = all(_same(M[i, j], W0[j, i]) for i in range(n) for j in range(n))
        h.ok(same or tr, 'the rate matrix is diagonalised')
        P = R_ if same else L_
        used.append(1)
        w = h.wrap(np.array([P[k][0] for k in perm], object))
        v = np.empty((n, n), object)
        for c, k in enumerate(perm):
            for i in range(n):
                v[i, c] = P[k][1][i] * sc[k]
        return w, h.wrap(v)
    h.world.eig_hook = eig
    got = h.world.rates.stationary_solution(W)
    h.ok(np.shape(got) == (n,), 'one probability per state')
    h.eq(sum(got[1:], got[0]), h.const(1), 'probabilities sum to one')
    for i in range(n):
        h.eq(sum((W0[i, j] * got[j] for j in range(n)), h.const(0)), h.const(0), 'stationary')
        h.eq(got[i], p[i], 'stationary distribution')
    h.eq(W, W0, 'rate matrix unchanged')


def _same(x, y):
    d = x - y
    if isinstance(d, Cx):
        return _same(d.real, d.imag * 0) and _same(d.imag, d.imag * 0)
    return _zero(d)


def _zero(d):
    import z3
    e = getattr(d, 'e', d)
    try:
        e = z3.simplify(e, som=True)
        return z3.is_rational_value(e) and e.as_fraction() == 0
    except Exception:
        return d == 0


def instances(tier):
    q = tier == 'quick'
    kw = dict(abstract_mul=True, abstract_recip=True, timeout=60 if q else 400)
    import itertools as it
    for perm in it.permutations(range(2)):
        yield Inst('two_%d%d' % perm, stationary, dict(kind='two', n=2, perm=perm), **kw)
    for kind in ('relax', 'trap', 'ring'):
        for n in (3, 4) if q else (3, 4, 5, 6):
            perms = list(it.permutations(range(n))) if n == 3 else \
                [tuple(np.roll(range(n), s)) for s in range(n)]
            for perm in perms:
                perm = tuple(int(x) for x in perm)
                yield Inst('%s%d_%s' % (kind, n, ''.join(map(str, perm))), stationary,
                           dict(kind=kind, n=n, perm=perm), **kw)
