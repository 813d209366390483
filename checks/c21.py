from .common import *
from . import cback
from .cback import vec, cell, get, leaks

EXPLAIN = ('The bracketing, line minimisation and conjugate-gradient routines are interpreted from LLVM '
           'IR with an unknown objective: every evaluation returns a free value (equal arguments give '
           'equal values), so all branch histories up to the stated number of evaluations are explored. '
           'Obligations: reported values belong to the reported points, brackets are valid, no result is '
           'worse than the start, search directions follow the Polak-Ribiere formula from the current '
           'gradient, memory is released and never accessed outside its bounds.')
BOUNDS = {'quick': 'bracketing: 5 evaluations; line minimisation: 3 evaluations of value and slope; '
                   'conjugate gradients: 3 line minimisations, 1..3 parameters',
          'thorough': 'bracketing: 6, line minimisation: 4, conjugate gradients: 4'}
OUTSIDE = 'longer searches; rounding; quality of the local minimum'
STUBS = ['objective: free values per evaluation', 'modular: dlinmin inside frprmn and mnbrak/dbrent '
         'inside dlinmin are replaced by their checked contracts']
NATIVE = ['edpyt_backend/*.c (LLVM IR)']


class Obj:
    """Unknown function of one variable, evaluated at most K times."""

    def __init__(self, h, K):
        self.h, self.K, self.f, self.d = h, K, [], []

    def _new(self, log, x, nm):
        h = self.h
        if len(log) >= self.K:
            h.assume(False)
        v = h.real('%s%d' % (nm, len(log)))
        for y, w in log:
            if h.sym:
                import z3
                e = x == y
                if e is True:
                    h.assume(v == w)
                elif e is not False:
                    h.assume(B(z3.Implies(e.t, core.bterm(v == w))))
            elif x == y:
                v = w
        log.append((x, v))
        return v

    def value(self, x):
        return self._new(self.f, x, 'f')

    def slope(self, x):
        return self._new(self.d, x, 'd')

    def has(self, x, v):
        """(x, v) is one of the evaluations."""
        if not self.h.sym:
            return any(x == a and v == b for a, b in self.f)
        import z3
        return B(z3.Or(*[z3.And(core.bterm(x == a), core.bterm(v == b)) for a, b in self.f]))


def bracket(h):
    K = h.param('K')
    m = cback.machine(h, 'mnbrak')
    m.fresh_div = 'free'
    ob = Obj(h, K)
    m.natives['symf'] = ob.value
    if h.param('unit'):
        a0, b0 = (h.const(0), h.const(1))
    else:
        a0, b0 = h.real('a'), h.real('b')
        h.assume(a0 < b0 if h.param('up') else b0 < a0)
    ps = [cell(m, a0), cell(m, b0)] + [cell(m) for _ in range(4)]
    m.call('mnbrak', *ps, ('f', 'symf'))
    ax, bx, cx, fa, fb, fc = [get(p) for p in ps]
    for x, f, s in ((ax, fa, 'a'), (bx, fb, 'b'), (cx, fc, 'c')):
        h.ok(ob.has(x, f), 'value reported for point %s' % s)
    h.ok(fb <= fa, 'the middle is not above the first end')
    h.ok(fb <= fc, 'the middle is not above the last end')
    h.ok(((ax < bx) & (bx < cx)) | ((cx < bx) & (bx < ax)), 'the middle lies between the ends')
    h.ok(not leaks(m), 'no memory left behind')


def brent(h):
    K = h.param('K')
    m = cback.machine(h, 'dbrent')
    m.fresh_div = 'free'
    ob = Obj(h, K)
    m.natives['symf'], m.natives['symd'] = ob.value, ob.slope
    a, b, c = h.real('a', -5, 5), h.real('b', -5, 5), h.real('c', -5, 5)
    tol = h.const(Fraction(2, 10000)) if h.sym else 2e-4
    gap = h.const(Fraction(1, 100)) if h.sym else .01
    if h.param('up'):
        h.assume(a + gap < b)
        h.assume(b + gap < c)
    else:
        h.assume(c + gap < b)
        h.assume(b + gap < a)
    out = cell(m)
    r = m.call('dbrent', a, b, c, ('f', 'symf'), ('f', 'symd'), tol, out)
    x = get(out)
    f0 = ob.f[0][1]
    h.eq(ob.f[0][0], b, 'starts from the middle')
    h.ok(ob.has(x, r), 'value reported for the minimum')
    h.ok(r <= f0, 'not worse than the start')
    for y, v in ob.f:
        h.ok(r <= v, 'the best point found is returned')
    lo, hi = (a, c) if h.param('up') else (c, a)
    h.ok(lo <= x, 'minimum inside the bracket')
    h.ok(x <= hi, 'minimum inside the bracket')


def line(h):
    """dlinmin with the bracketing and minimisation replaced by contracts."""
    n = h.param('n')
    m = cback.machine(h, 'dlinmin', 'mnbrak', 'dbrent')
    p, xi = h.array('p', n), h.array('xi', n)
    p0, x0 = p.copy(), xi.copy()
    t, s, xmin, fmin = h.real('t'), h.real('s'), h.real('xmin'), h.real('fmin')
    log = []

    def obj(q):
        v = h.real('v%d' % len(log))
        log.append((cback.read(h, q, n), v))
        return v

    def grad(q, g):
        w = h.array('g%d' % len(log), n)
        log.append((cback.read(h, q, n), w))
        for i in range(n):
            g.mem.store(g.off + 8 * i, w[i], 8)
    m.natives['obj'], m.natives['grad'] = obj, grad
    order = []

    def at(x):
        return [a + x * b for a, b in zip(p0, x0)]

    def value(f, x):
        k = len(log)
        r = m.call(f[1], x)
        h.ok(len(log) == k + 1, 'one evaluation per call')
        h.eq(log[-1][0], at(x), 'objective evaluated on the line')
        h.eq(r, log[-1][1], 'value on the line')

    def slope(f, x):
        k = len(log)
        r = m.call(f[1], x)
        h.ok(len(log) == k + 1, 'one evaluation per call')
        h.eq(log[-1][0], at(x), 'gradient evaluated on the line')
        h.eq(r, sum((a * b for a, b in zip(log[-1][1], x0)), h.const(0)), 'slope along the line')

    br = [h.real('br%d' % i) for i in range(6)]

    def mnbrak(ax, bx, cx, fa, fb, fc, f):
        order.append('mnbrak')
        h.ok(get(ax) == 0, 'starts at the current point')
        h.ok(get(bx) != 0, 'initial step')
        value(f, t)
        for q, v in zip((ax, bx, cx, fa, fb, fc), br):
            q.mem.store(q.off, v, 8)

    def dbrent(a, b, c, f, df, tol, out):
        order.append('dbrent')
        h.eq([a, b, c], br[:3], 'bracket handed over')
        h.ok(tol > 0, 'positive tolerance')
        value(f, s)
        slope(df, s)
        slope(df, t)
        value(f, t)
        out.mem.store(out.off, xmin, 8)
        return fmin
    m.natives['mnbrak'], m.natives['dbrent'] = mnbrak, dbrent
    fret = cell(m)
    m.call('dlinmin', vec(p), vec(xi), n, fret, ('f', 'obj'), ('f', 'grad'))
    h.ok(order == ['mnbrak', 'dbrent'], 'bracket then minimise')
    h.eq(p, at(xmin), 'new position on the line')
    h.eq(xi, [xmin * b for b in x0], 'displacement handed back')
    h.eq(get(fret), fmin, 'value at the new position')
    h.ok(not leaks(m), 'all memory released')


def descend(h):
    """frprmn with the line minimisation replaced by its contract."""
    n, K = h.param('n'), h.param('K')
    m = cback.machine(h, 'frprmn', 'dlinmin')
    m.fresh_div = False
    p = h.array('p', n)
    start = p.copy()
    st = dict(pos=start, steps=[], grads=0, f=h.real('F0'))

    def obj(q):
        h.eq(cback.read(h, q, n), st['pos'], 'objective evaluated at the current point')
        return st['f']

    def grad(q, g):
        h.eq(cback.read(h, q, n), st['pos'], 'gradient evaluated at the current point')
        w = h.array('G%d' % len(st['steps']), n)
        st['grads'] += 1
        st['g'] = w
        for i in range(n):
            g.mem.store(g.off + 8 * i, w[i], 8)
    m.natives['obj'], m.natives['grad'] = obj, grad

    def dlinmin(q, xi, k, fret, f, df):
        i = len(st['steps'])
        if i >= K:
            h.assume(False)
        h.ok(int(k) == n, 'dimension')
        h.ok(f == ('f', 'obj') and df == ('f', 'grad'), 'objective and gradient handed over')
        h.ok(st['grads'] == i + 1, 'gradient renewed before every line search')
        h.eq(cback.read(h, q, n), st['pos'], 'line search from the current point')
        d = cback.read(h, xi, n)
        g = st['g']
        if i == 0:
            want = [-x for x in g]
        else:
            old, hh = st['old']
            gg = sum((x * x for x in old), h.const(0))
            dg = sum(((x - y) * x for x, y in zip(g, old)), h.const(0))
            want = [gg * -x + dg * y for x, y in zip(g, hh)]
            h.eq([gg * x for x in d], want, 'conjugate search direction')
        if i == 0:
            h.eq(d, want, 'steepest descent first')
        st['old'] = (g, d)
        new, fn = h.array('P%d' % (i + 1), n), h.real('F%d' % (i + 1))
        h.assume(fn <= st['f'])
        for j in range(n):
            q.mem.store(q.off + 8 * j, new[j], 8)
            xi.mem.store(xi.off + 8 * j, new[j] - st['pos'][j], 8)
        fret.mem.store(fret.off, fn, 8)
        st['prev'], st['f'], st['pos'] = st['f'], fn, new
        st['steps'].append(fn)
    m.natives['dlinmin'] = dlinmin
    it, fret = cell(m, nbytes=4), cell(m)
    m.call('frprmn', vec(p), n, h.const(1e-5) if h.sym else 1e-5, it, fret, ('f', 'obj'), ('f', 'grad'))
    h.eq(p, st['pos'], 'last position returned')
    h.eq(get(fret), st['f'], 'value at the returned position')
    h.ok(int(get(it, 4)) == len(st['steps']), 'iteration count')
    a, b = st['f'], st['prev']
    zero = sum((x * x for x in st['old'][0]), h.const(0)) == 0
    small = 2 * abs(a - b) <= (h.const(Fraction(11, 10 ** 6)) if h.sym else 1.1e-5) * (abs(a) + abs(b) + h.const(Fraction(1, 1000)))
    h.ok(small | zero, 'stops only when converged or at a stationary point')
    h.ok(not leaks(m), 'all memory released')


def instances(tier):
    q = tier == 'quick'
    t = 200 if q else 2500
    for K in ((5,) if q else (6,)):
        yield Inst('bracket_unit_%d' % K, bracket, dict(K=K, unit=True), timeout=t, abstract_mul='opaque')
    for up in (True, False):
        yield Inst('bracket_%d_%d' % (4 if q else 5, up), bracket, dict(K=4 if q else 5, unit=False, up=up), timeout=t, abstract_mul='opaque')
        yield Inst('brent_%d_%d' % (3 if q else 4, up), brent, dict(K=3 if q else 4, up=up), timeout=t, abstract_mul='opaque')
    for n in (1, 2, 3):
        yield Inst('line_n%d' % n, line, dict(n=n), timeout=t, abstract_mul=True)
        yield Inst('descend_n%d' % n, descend, dict(n=n, K=(3 if n < 3 else 2) if q else 4), timeout=t)
