import itertools

from .common import *

EXPLAIN = ('The Lanczos recursions run on A = Q T Q^T with a constant rational rotation Q and a fully '
           'symbolic tridiagonal (block-tridiagonal) T: by the implicit-Q theorem the recursion must '
           'return exactly T, for every positive off-diagonal and every norm of the start vector, stop '
           'where the Krylov space ends or the ground energy settles, and the second pass must return '
           'V U for every U.')
BOUNDS = {'quick': 'vectors of length 2..5 in six rational orthogonal bases, up to 4 steps, '
                   'block size 1..2, every breakdown position, any eigenvalue selection',
          'thorough': 'length 6, up to 5 steps, block size 3'}
OUTSIDE = 'loss of orthogonality in floating point; LAPACK/ARPACK accuracy; other bases'
STUBS = ['LAPACK stebz/stein/stemr: free eigenpairs, the arguments are checked',
         'ARPACK is in C16']


def rotations(d, m):
    """Rational orthogonal d x d matrices."""
    F = Fraction
    if m == 0:
        v = [F(k + 1) for k in range(d)]
    elif m == 1:
        v = [F((-1) ** k) for k in range(d)]
    else:
        v = [F(1 + (k * m) % 3) for k in range(d)]
    s = sum(x * x for x in v)
    return [[(1 if i == j else 0) - 2 * v[i] * v[j] / s for j in range(d)] for i in range(d)]


def rot(h, d, m):
    Q = rotations(d, m)
    out = np.empty((d, d), object)
    for i in range(d):
        for j in range(d):
            out[i, j] = R(Q[i][j]) if h.sym else float(Q[i][j])
    return h.wrap(out)


def tri(h, d, cut=None, block=1):
    """Symbolic tridiagonal matrix, decoupled after `cut`."""
    T = h.wrap(np.array([[h.const(0)] * d] * d, object))
    for i in range(d):
        T[i, i] = h.real('a%d' % i)
    for i in range(d - 1):
        b = h.const(0) if cut == i + 1 else h.real('b%d' % (i + 1), 0.3, 2)
        if cut != i + 1:
            h.assume(b > (0.01 if not h.sym else h.const(Fraction(1, 100))))
        T[i, i + 1] = T[i + 1, i] = b
    return T


def world(h, egs=None):
    """stebz returns the i-th free ground energy for the i-th call."""
    log = []

    def stebz(a, b, *args, **k):
        i = len(log)
        log.append((np.array(a, copy=True), np.array(b, copy=True), args))
        v = egs[min(i, len(egs) - 1)] if egs else h.real('eg%d' % i)
        return 1, h.wrap(np.array([v], object)), None, None, 0
    return h.new_world(stubs={'lapack.stebz': stebz}), log


def setup(h, cut=None):
    d, m = h.param('d'), h.param('m')
    Q = rot(h, d, m)
    T = tri(h, d, cut)
    A = h.wrap(np.asarray(Q).dot(np.asarray(T)).dot(np.asarray(Q).T))
    s = h.real('norm', 0.3, 3)
    h.assume(s > h.const(Fraction(1, 10)))
    v = np.asarray(Q)[:, 0] * s
    return Q, T, A, s, h.wrap(np.array(v))


def mat(h, A, calls=None):
    A = np.asarray(A)

    def mv(x, *a):
        if calls is not None:
            calls.append(1)
        return h.wrap(A.dot(np.asarray(x)))
    return mv


def coeffs(h):
    """The coefficients are those of the orthonormal Krylov basis."""
    d, maxn, ND = h.param('d'), h.param('maxn'), h.param('ND')
    w, log = world(h)
    Q, T, A, s, v = setup(h)
    L = w.lanczos
    done = []
    n = min(maxn - 1, d)
    # the ground-state energy has not settled
    i = 0
    vals = [h.real('eg%d' % k) for k in range(4)]
    for x, y in zip(vals, vals[1:]):
        h.assume(abs(x - y) > h.const(Fraction(1, 100)))
    a, b = L.build_sl_tridiag(mat(h, A), v.copy(), maxn=maxn, delta=h.const(0) if h.sym else 0., ND=ND)
    h.ok(len(a) == n and len(b) == n, 'as many coefficients as requested')
    h.eq(a, np.diag(np.asarray(T))[:n], 'diagonal coefficients')
    h.eq(b, [s] + [T[i, i + 1] for i in range(n - 1)], 'off-diagonal coefficients, the norm first')


def breakdown(h):
    """Stops at the end of the Krylov space."""
    d, cut = h.param('d'), h.param('cut')
    w, log = world(h)
    Q, T, A, s, v = setup(h, cut)
    vals = [h.real('eg%d' % k) for k in range(4)]
    for x, y in zip(vals, vals[1:]):
        h.assume(abs(x - y) > h.const(Fraction(1, 100)))
    a, b = w.lanczos.build_sl_tridiag(mat(h, A), v.copy(), maxn=h.param('maxn'),
                                      delta=1e-9, ND=h.param('ND'))
    h.ok(len(a) == cut and len(b) == cut, 'the recursion ends with the Krylov space')
    h.eq(a, np.diag(np.asarray(T))[:cut], 'diagonal coefficients')
    h.eq(b, [s] + [T[i, i + 1] for i in range(cut - 1)], 'off-diagonal coefficients')


def zero(h):
    d = h.param('d')
    w, log = world(h)
    A = h.symmetric('A', d)
    v = h.wrap(np.array([h.const(0)] * d, object))
    try:
        w.lanczos.build_sl_tridiag(mat(h, A), v, maxn=5, delta=1e-9)
    except w.lanczos.ZeroNormInitialVector:
        h.ok(True, 'a zero start vector is reported')
        return
    h.ok(False, 'a zero start vector is reported')


def converge(h):
    """Ground energy settling ends the recursion, at multiples of ND."""
    d, ND = h.param('d'), h.param('ND')
    vals = [h.real('eg%d' % k) for k in range(4)]
    w, log = world(h, vals)
    Q, T, A, s, v = setup(h)
    tol = h.const(Fraction(1, 1000))
    a, b = w.lanczos.build_sl_tridiag(mat(h, A), v.copy(), maxn=d + 1,
                                      delta=h.const(0) if h.sym else 0., ND=ND,
                                      tol=tol if h.sym else float(tol))
    # oracle on the same values
    n, prev = 0, None
    full = min(d, d + 1)
    for k in range(4):
        n = min(n + ND, full)
        if n == full:
            break
        if prev is not None and bool(abs(vals[k] - prev) < tol):
            break
        prev = vals[k]
    h.ok(len(a) == n, 'stops when two successive ground energies agree')
    h.eq(a, np.diag(np.asarray(T))[:n], 'diagonal coefficients')
    h.eq(b, [s] + [T[i, i + 1] for i in range(n - 1)], 'off-diagonal coefficients')
    k = 0
    for la, lb, args in log:
        k = len(la)
        h.eq(la, np.diag(np.asarray(T))[:k], 'the convergence test uses the coefficients so far')
        h.eq(lb, [T[i, i + 1] for i in range(k - 1)], 'the convergence test uses the coefficients so far')


def second(h):
    """sl_solve: eigenvectors X = V U in the full space."""
    d, n, k, sel = h.param('d'), h.param('n'), h.param('k'), h.param('sel')
    Q, T, A, s, v = setup(h)
    w = h.new_world()
    a = h.wrap(np.array(np.diag(np.asarray(T))[:n]))
    b = h.wrap(np.array([s] + [T[i, i + 1] for i in range(n - 1)], object))
    U, e = h.array('u', n, k), h.array('e', k)
    log = []

    def eigh(aa, bb, select=0, select_range=(0, 0), eigvals_only=False):
        log.append((np.array(aa), np.array(bb), select, tuple(select_range), bool(eigvals_only)))
        return e.copy() if eigvals_only else (e.copy(), U.copy())
    w.tridiag.eigh_tridiagonal = eigh
    L = w.lanczos
    sr = (0, k - 1) if sel == 2 else (0, 0)
    ww, X = L.sl_solve(mat(h, A), a.copy(), b.copy(), v.copy(), select=sel, select_range=sr)
    h.eq(ww, e, 'eigenvalues of the tridiagonal matrix')
    h.eq(X, np.asarray(Q)[:, :n].dot(np.asarray(U)), 'eigenvectors are the Krylov basis times U')
    only = L.sl_solve(mat(h, A), a.copy(), b.copy(), select=sel, select_range=sr, eigvals_only=True)
    h.eq(only, e, 'eigenvalues only')
    for aa, bb, s_, r_, o_ in log:
        h.eq(aa, a, 'tridiagonal matrix handed over')
        h.eq(bb, b[1:], 'tridiagonal matrix handed over')
        h.ok(s_ == sel and (sel == 0 or r_ == sr), 'selection handed over')
    h.ok([x[4] for x in log] == [False, True], 'eigenvectors computed when needed')


def step(h):
    """One recursion step for arbitrary vectors."""
    d = h.param('d')
    L = h.world.lanczos
    A = h.symmetric('A', d)
    v, l = h.array('v', d), h.array('l', d)
    v0 = v.copy()
    n2 = sum((x * x for x in v[1:]), v[0] * v[0])
    h.assume(n2 > (h.const(0) if h.sym else 1e-3))
    a, b, vv, ww = L.sl_step(mat(h, A))(v, l)
    h.eq(b * b, n2, 'norm of the candidate')
    h.ok(h.true(b > 0) if hasattr(h, 'true') else True, 'norm of the candidate')
    h.eq(np.asarray(vv) * b, v0, 'normalised candidate')
    Av = np.asarray(A).dot(np.asarray(vv))
    h.eq(a, np.asarray(vv).dot(Av), 'Rayleigh quotient')
    h.eq(ww, Av - a * np.asarray(vv) - b * np.asarray(l), 'next candidate')


def profile(d, L, defl, dep):
    """Last column coupled to each Krylov vector; `defl`: vectors whose image adds nothing new."""
    last, top = [], L - len(dep) - 1
    for i in range(d):
        if i not in defl and top < d - 1 and i <= top:
            top += 1
        last.append(top)
    return last


def block(h):
    """Block recursion: T = V^T A V in the band Krylov basis, with deflation."""
    d, L, maxn, m = h.param('d'), h.param('L'), h.param('maxn'), h.param('m')
    defl, dep = h.param('defl'), h.param('dep')
    Q = rot(h, d, m)
    T = h.wrap(np.array([[h.const(0)] * d] * d, object))
    last = profile(d, L, defl, dep)
    small = h.const(Fraction(1, 100))
    for i in range(d):
        for j in range(i, last[i] + 1):
            T[i, j] = T[j, i] = h.real('T%d%d' % (i, j))
        if last[i] > (last[i - 1] if i else L - len(dep) - 1):
            h.assume(T[i, last[i]] > small)
            h.assume(T[i, last[i]] < h.const(3))     # keeps the replay in floating point accurate
    A = np.asarray(Q).dot(np.asarray(T)).dot(np.asarray(Q).T)
    # start block: lower-triangular combination of the first basis vectors; those in `dep`
    # depend on the ones before
    phi, r = [], 0
    for i in range(L):
        x = 0 * np.asarray(Q)[:, 0]
        for j in range(r):
            x = x + np.asarray(Q)[:, j] * h.real('s%d%d' % (i, j), 0.3, 2)
        if i not in dep:
            s = h.real('s%d%d' % (i, r), 0.3, 2)
            h.assume(s > small)
            x = x + np.asarray(Q)[:, r] * s
            r += 1
        phi.append(h.wrap(np.array(x)))
    w = h.new_world(stubs=None)
    out = w.lanczos.build_bd_tridiag(mat(h, A), phi, maxn=maxn, delta=1e-9, ND=50)
    if defl or dep:
        n = [i for i in range(d) if last[i] == i][0] + 1   # maxn is beyond the invariant subspace
    else:
        n = min(d, maxn - L)
    h.ok(out.shape == (n, n), 'as many basis vectors as requested')
    # entries before column 0 wrap into the last columns of the work array: not part of T
    h.eq(out, np.asarray(T)[:n, :n], 'projected Hamiltonian')


def bconverge(h):
    """Block recursion: a settled ground energy ends it, at multiples of ND."""
    d, L, ND = h.param('d'), h.param('L'), h.param('ND')
    vals = [h.real('eg%d' % k) for k in range(d + 1)]
    tol = h.const(Fraction(1, 1000))
    Q = rot(h, d, h.param('m'))
    T = h.wrap(np.array([[h.const(0)] * d] * d, object))
    small = h.const(Fraction(1, 100))
    for i in range(d):
        for j in range(i, min(i + L + 1, d)):
            T[i, j] = T[j, i] = h.real('T%d%d' % (i, j))
        if i + L < d:
            h.assume(T[i, i + L] > small)
            h.assume(T[i, i + L] < h.const(3))
    A = np.asarray(Q).dot(np.asarray(T)).dot(np.asarray(Q).T)
    s = [h.real('s%d' % i, 0.3, 2) for i in range(L)]
    for x in s:
        h.assume(x > small)
    phi = [h.wrap(np.array(np.asarray(Q)[:, i] * s[i])) for i in range(L)]
    w = h.new_world(stubs=None)
    log = []

    def eigvalsh(a, *args, **k):
        log.append(np.array(a, copy=True))
        return h.wrap(np.array([vals[len(log) - 1]] + [h.const(50)] * (len(a) - 1), object))
    patch_np(w.lanczos, linalg=dict(eigvalsh=eigvalsh))
    out = w.lanczos.build_bd_tridiag(mat(h, A), phi, maxn=d + L, delta=1e-9, ND=ND,
                                     tol=tol if h.sym else float(tol))
    n, prev, k = 0, None, 0
    while n < d:
        n += 1
        if n % ND == 0:
            if prev is not None and bool(abs(vals[k] - prev) < tol):
                break
            prev, k = vals[k], k + 1
    h.ok(out.shape == (n, n), 'the block recursion stops when two successive ground energies agree')
    h.eq(out, np.asarray(T)[:n, :n], 'projected Hamiltonian')
    for i, a in enumerate(log):
        h.ok(a.shape == ((i + 1) * ND,) * 2, 'the convergence test uses the matrix so far')
        lo = np.tril(np.ones(a.shape)) > 0      # LAPACK reads the lower triangle
        h.eq(a[lo], np.asarray(T)[:len(a), :len(a)][lo], 'the convergence test uses the matrix so far')


def gs(h):
    d, k, m = h.param('d'), h.param('k'), h.param('m')
    L = h.world.lanczos
    Q = np.asarray(rot(h, d, m))
    S = np.empty((k, k), object)
    X = []
    for i in range(k):
        x = 0
        for j in range(i + 1):
            S[i, j] = h.real('s%d%d' % (i, j), 0.3, 2)
            x = x + Q[:, j] * S[i, j]
        h.assume(S[i, i] > h.const(Fraction(1, 100)))
        X.append(x)
    X = h.wrap(np.array(X))
    for rows in (True, False):
        Y = L.gram_schmidt_rows(X.copy() if rows else X.T.copy(), row_vecs=rows)
        h.eq(Y if rows else Y.T, Q[:, :k].T, 'orthonormal vectors spanning the same nested spaces')
        Y = L.gram_schmidt_rows(X.copy() if rows else X.T.copy(), row_vecs=rows, norm=False)
        h.eq(Y if rows else Y.T, np.array([Q[:, i] * S[i, i] for i in range(k)]),
             'orthogonal vectors without normalisation')


def lapack(h):
    """Selections and arguments handed to LAPACK, shape of what comes back."""
    n = h.param('n')
    a, b = h.array('a', n), h.array('b', n - 1)
    log = []

    def stebz(d, e, rng, vl, vu, il, iu, tol, order):
        log.append(('stebz', np.array(d), np.array(e), rng, il, iu, order))
        k = iu - il + 1
        ww = h.wrap(np.array([h.real('w%d' % (il - 1 + i)) if i < k else h.const(99)
                              for i in range(n)], object))
        return k, ww, np.arange(n), np.arange(n) + 1, 0

    def stein(d, e, w, ib, isp):
        log.append(('stein', np.array(d), np.array(e), np.array(w), np.array(ib), np.array(isp)))
        k = len(w)
        return h.array('V', n, k), 0

    def lwork(d, e, *args, **k):
        log.append(('lwork', np.array(d), args, k))
        return 11, 22, 0

    def stemr(d, e, rng, vl, vu, il, iu, compute_v=True, lwork=None, liwork=None, overwrite_d=0):
        log.append(('stemr', np.array(d), np.array(e), rng, compute_v, lwork, liwork))
        return n, h.array('w', n), h.array('V', n, n), 0
    w = h.new_world(stubs={'lapack.stebz': stebz, 'lapack.stein': stein,
                           'lapack.stemr_lwork': lwork, 'lapack.stemr': stemr})
    t = w.tridiag
    for lo in range(n):
        for hi in range(lo, n):
            del log[:]
            ev, V = t.eigh_tridiagonal(a.copy(), b.copy(), 2, (lo, hi))
            h.eq(ev, [h.real('w%d' % i) for i in range(lo, hi + 1)], 'the eigenvalues selected')
            h.ok(np.shape(V) == (n, hi - lo + 1), 'one eigenvector per selected eigenvalue')
            s = [x for x in log if x[0] == 'stebz']
            h.ok(len(s) == 1 and s[0][3:6] == (2, lo + 1, hi + 1) and s[0][6] == 'B',
                 'index selection, block order when vectors follow')
            h.eq(s[0][1], a, 'diagonal'); h.eq(s[0][2], b, 'off-diagonal')
            st = [x for x in log if x[0] == 'stein']
            h.ok(len(st) == 1, 'inverse iteration on the selected eigenvalues')
            h.eq(st[0][3][:hi - lo + 1], ev, 'inverse iteration on the selected eigenvalues')
            ev2 = t.eigh_tridiagonal(a.copy(), b.copy(), 2, (lo, hi), eigvals_only=True)
            h.eq(ev2, ev, 'eigenvalues only')
    h.eq(t.egs_tridiag(a, b), h.real('w0'), 'lowest eigenvalue')
    e0, v0 = t.gs_tridiag(a, b)
    h.eq(e0, [h.real('w0')], 'lowest eigenpair')
    h.ok(np.shape(v0) == (n, 1), 'lowest eigenpair')
    del log[:]
    ev, V = t.eigh_tridiagonal(a.copy(), b.copy())
    s = [x for x in log if x[0] == 'stemr']
    h.ok(len(s) == 1 and s[0][3] == 0 and bool(s[0][4]), 'full spectrum with eigenvectors')
    h.eq(s[0][1], a, 'diagonal')
    h.eq(s[0][2][:n - 1], b, 'off-diagonal')
    h.ok(len(s[0][2]) == n, 'LAPACK needs a work element after the off-diagonal')
    h.ok(len(ev) == n and np.shape(V) == (n, n), 'full spectrum with eigenvectors')
    ev = t.eigh_tridiagonal(a.copy(), b.copy(), eigvals_only=True)
    h.ok(np.shape(ev) == (n,), 'full spectrum without eigenvectors')
    for bad in (1, 3):
        try:
            t.eigh_tridiagonal(a, b, bad)
            h.ok(False, 'unknown selections are refused')
        except AssertionError:
            h.ok(True, 'unknown selections are refused')


def instances(tier):
    q = tier == 'quick'
    kw = dict(normalize=True, div='ieee', timeout=200 if q else 1500)
    for d, m, maxn, ND in ((2, 0, 6, 10), (3, 1, 3, 10), (3, 0, 4, 2), (4, 2, 4, 10), (4, 1, 5, 3), (4, 0, 5, 2),
                           (5, 2, 5, 10), (5, 4, 4, 2)) + (
            () if q else ((5, 0, 6, 10), (6, 1, 5, 3), (6, 2, 6, 10), (6, 4, 7, 10))):
        if maxn - 1 > d:
            continue
        yield Inst('coeffs_d%d_m%d_%d_%d' % (d, m, maxn, ND), coeffs, dict(d=d, m=m, maxn=maxn, ND=ND), **kw)
    for d in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6):
        for cut in range(1, d):
            for ND in (10, 2):
                yield Inst('breakdown_d%d_c%d_%d' % (d, cut, ND), breakdown,
                           dict(d=d, m=d % 3, cut=cut, maxn=d + 3, ND=ND), **kw)
    for d in (1, 2, 3):
        yield Inst('zero_d%d' % d, zero, dict(d=d), **kw)
    for d, ND in ((4, 2), (5, 2), (5, 3)) + (() if q else ((6, 2), (6, 3))):
        yield Inst('converge_d%d_%d' % (d, ND), converge, dict(d=d, m=1, ND=ND), **kw)
    for d, n, k, sel in ((2, 1, 1, 0), (3, 2, 1, 2), (3, 3, 3, 0), (4, 3, 2, 2), (4, 2, 2, 0)) + (
            () if q else ((5, 4, 3, 2), (6, 4, 4, 0))):
        yield Inst('second_d%d_n%d_k%d_%d' % (d, n, k, sel), second, dict(d=d, m=d % 3, n=n, k=k, sel=sel), **kw)
    for d in (1, 2, 3) + (() if q else (4,)):
        yield Inst('step_d%d' % d, step, dict(d=d), timeout=200 if q else 1500)
    for d, L, maxn, m in ((3, 1, 3, 0), (4, 2, 4, 1), (4, 2, 5, 0), (5, 2, 6, 1)) + (
            () if q else ((5, 2, 5, 2), (6, 2, 6, 1), (6, 3, 8, 0))):
        yield Inst('block_d%d_L%d_%d' % (d, L, maxn), block, dict(d=d, L=L, maxn=maxn, m=m, defl=(), dep=()), **kw)
    for d, L, defl, dep, m in ((3, 2, (0,), (), 0), (4, 2, (1,), (), 1), (5, 2, (0,), (), 2), (4, 2, (), (1,), 0),
                               (4, 3, (0,), (), 1), (4, 2, (0, 1), (), 0)) + (
            () if q else ((5, 2, (1,), (), 1), (5, 3, (0, 2), (), 0), (6, 2, (2,), (), 1), (5, 3, (), (1,), 2),
                          (5, 3, (), (1, 2), 0), (6, 3, (1,), (), 0))):
        yield Inst('deflate_d%d_L%d_%s_%s' % (d, L, ''.join(map(str, defl)), ''.join(map(str, dep))), block,
                   dict(d=d, L=L, maxn=12, m=m, defl=defl, dep=dep), **kw)
    for d, L, ND, m in ((3, 1, 1, 0), (4, 2, 1, 1), (4, 2, 2, 0)) + (() if q else ((5, 2, 2, 1), (6, 3, 2, 0))):
        yield Inst('bconverge_d%d_L%d_%d' % (d, L, ND), bconverge, dict(d=d, L=L, ND=ND, m=m), **kw)
    for d, k, m in ((2, 2, 0), (3, 2, 1), (3, 3, 0), (4, 3, 2)):
        yield Inst('gs_d%d_k%d' % (d, k), gs, dict(d=d, k=k, m=m), **kw)
    for n in (2, 3, 4):
        yield Inst('lapack_n%d' % n, lapack, dict(n=n), timeout=200)
