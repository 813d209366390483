from .common import *
from symx import mem, native
from symx.mem import TRACE

EXPLAIN = ('The Cython kernels (interpreted from their parse tree) and the C helpers (interpreted '
           'from LLVM IR) are executed on sparse matrices whose row pointers, column indices and '
           'values are symbolic: accumulation of the exact product, no access outside the '
           'arrays, and independence of the iterations of the parallel loops are obligations.')
BOUNDS = {'quick': 'square matrices of dimension 1..4 with up to 4 stored entries in every row '
                   'distribution and column choice (duplicates included), 1..3 blocks',
          'thorough': 'dimension up to 5, up to 6 stored entries, up to 3 blocks'}
OUTSIDE = 'column-compressed input (rejected); 32-bit overflow of the stored-entry count'
NATIVE = ['edpyt/psparse.pyx (Cython parse tree)', 'edpyt/cs_gaxpy.c (LLVM IR)']


class Mat:
    format = 'csr'
    ndim = 2

    def __init__(self, data, indices, indptr, shape):
        self.data, self.indices, self.indptr, self.shape = data, indices, indptr, shape


def i32(h, xs):
    if h.sym:
        return h.ints(xs)
    return np.array(xs, np.int32)


def matrix(h, m, nnz):
    ptr = [0]
    for i in range(m - 1):
        p = h.int('p%d' % i, 0, nnz)
        h.assume(p >= ptr[-1])
        ptr.append(p)
    ptr.append(nnz)
    ix = [h.int('c%d' % k, 0, m - 1) for k in range(nnz)]
    data = h.array('a', nnz)
    A = Mat(data, i32(h, ix), i32(h, ptr), (m, m))
    D = [[h.const(0) for _ in range(m)] for _ in range(m)]
    for i in range(m):
        for k in range(nnz):
            inrow = (k >= ptr[i]) & (k < ptr[i + 1]) if h.sym else ptr[i] <= k < ptr[i + 1]
            for j in range(m):
                on = inrow & (ix[k] == j) if h.sym else (inrow and ix[k] == j)
                if h.sym:
                    on = on if isinstance(on, B) else bool(on)
                    D[i][j] = D[i][j] + (core.ite(on, data[k], 0) if isinstance(on, B)
                                         else (data[k] if on else 0))
                elif on:
                    D[i][j] = D[i][j] + data[k]
    return A, D


def kernel(h):
    kind, m, blocks, nnz = h.param('kind'), h.param('m'), h.param('blocks'), h.param('nnz')
    A, D = matrix(h, m, nnz)
    N = m * blocks
    x, y = h.array('x', N), h.array('y', N)
    x0, y0 = x.copy(), y.copy()
    mod = h.world.load('edpyt._psparse')
    f = getattr(mod, kind)
    TRACE.log = []
    f(A, x, y)
    want = []
    for r in range(N):
        if kind == 'UPmultiply':
            s, u = divmod(r, m)
            t = sum((D[u][k] * x0[s * m + k] for k in range(m)), y0[r])
        elif kind == 'DWmultiply':
            d, s = divmod(r, blocks)
            t = sum((D[d][k] * x0[k * blocks + s] for k in range(m)), y0[r])
        else:
            t = sum((D[r][k] * x0[k] for k in range(m)), y0[r])
        want.append(t)
    h.eq(y, want, 'result is accumulated with the exact product')
    h.eq(x, x0, 'input vector unchanged')
    bad = mem.races(TRACE.log)
    if h.sym:
        import z3
        h.ok(B(z3.Not(z3.Or(*[t for _, _, t in bad]))) if bad else True,
             'parallel iterations are independent')
    else:
        h.ok(not any(z3_true(t) for _, _, t in bad), 'parallel iterations are independent')
        nat = native.ext('_psparse')
        if nat is not None:
            y1 = y0.copy()
            getattr(nat, kind)(A, x0.copy(), y1)
            h.eq(y1, want, 'compiled kernel')


def z3_true(t):
    import z3
    return z3.is_true(z3.simplify(t))


def order(h):
    """Forward and reverse order of the parallel loop agree."""
    kind, m, blocks, nnz = h.param('kind'), h.param('m'), h.param('blocks'), h.param('nnz')
    A, D = matrix(h, m, nnz)
    x, y = h.array('x', m * blocks), h.array('y', m * blocks)
    y2 = y.copy()
    w1, w2 = h.new_world(), h.new_world()
    w2.prange_order = 'reverse'
    getattr(w1.load('edpyt._psparse'), kind)(A, x, y)
    getattr(w2.load('edpyt._psparse'), kind)(A, x, y2)
    h.eq(y, y2, 'loop order is irrelevant')


def reject(h):
    m = 2
    A, D = matrix(h, m, 2)
    mod = h.world.load('edpyt._psparse')
    x, y = h.array('x', 4), h.array('y', 4)
    for kind in ('UPmultiply', 'DWmultiply', 'Multiply'):
        f = getattr(mod, kind)
        B_ = Mat(A.data, A.indices, A.indptr, A.shape)
        B_.format = 'csc'
        h.raises(NotImplementedError, lambda: f(B_, x, y), 'column format rejected')
        h.raises(TypeError, lambda: f(None, x, y), 'missing matrix rejected')
        h.raises(Exception, lambda: f(A, x[::2], y), 'strided vector rejected')
        h.raises(Exception, lambda: f(A, x.reshape(2, 2), y), 'two-dimensional vector rejected')


def instances(tier):
    q = tier == 'quick'
    for kind in ('UPmultiply', 'DWmultiply', 'Multiply'):
        for m, blocks, nnz in ((1, 1, 1), (1, 3, 1), (2, 1, 2), (2, 2, 3), (2, 3, 2), (3, 2, 2),
                               (3, 1, 4), (2, 2, 0), (4, 2, 3), (2, 3, 4)) + (
                    () if q else ((3, 2, 5), (4, 2, 5), (2, 3, 6), (4, 1, 6), (5, 1, 5), (3, 3, 4))):
            if kind == 'Multiply' and blocks != 1:
                if blocks == 2 or m == 1:
                    continue
                m, blocks, nnz = m, 1, nnz + 1
            yield Inst('%s_m%d_b%d_z%d' % (kind, m, blocks, nnz), kernel,
                       dict(kind=kind, m=m, blocks=blocks, nnz=nnz), timeout=250 if q else 3000,
                       abstract_mul=True)
        yield Inst('order_' + kind, order, dict(kind=kind, m=2, blocks=1 if kind == 'Multiply' else 2,
                                                nnz=3), timeout=200, abstract_mul=True)
    yield Inst('reject', reject, {}, timeout=100)
