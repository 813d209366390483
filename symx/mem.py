"""Memory model shared by the Cython and LLVM-IR interpreters: pointers into
typed regions, bounds and initialisation checked on every access."""
import numpy as _np
import z3

from . import core
from .core import R, Cx, I, B


class MemFault(Exception):
    """Out-of-bounds / uninitialised / misaligned access (undefined behaviour)."""


class Trace:
    """Access log used for the data-race obligation of parallel loops."""

    def __init__(self):
        self.iter = None
        self.log = []

    def note(self, mem, idx, kind):
        if self.iter is not None:
            self.log.append((self.iter, id(mem.key()), mem, idx, kind))


TRACE = Trace()


def races(log):
    """Pairs (iter, iter', index terms) that may touch one cell, one writing."""
    by = {}
    for it, key, mem, idx, kind in log:
        by.setdefault(key, []).append((it, idx, kind))
    out = []
    for key, acc in by.items():
        acc = list({(it, ix.t.get_id() if isinstance(ix, I) else int(ix), kind, isinstance(ix, I)): (it, ix, kind) for it, ix, kind in acc}.values())
        writes = [a for a in acc if a[2] == 'w']
        for w in writes:
            for a in acc:
                if a[0] != w[0]:
                    same = w[1] == a[1]
                    if isinstance(same, B):
                        out.append((w, a, same.t))
                    elif same:
                        out.append((w, a, z3.BoolVal(True)))
    return out


class Mem:
    def key(self):
        return self


class ArrMem(Mem):
    """1-d contiguous numpy array viewed as C memory."""

    def __init__(self, arr, itemsize, base=None):
        self.arr = arr
        self.itemsize = itemsize
        self.size = arr.shape[0] * itemsize
        self._base = base if base is not None else arr

    def key(self):
        b = self._base
        while isinstance(b, _np.ndarray) and b.base is not None and isinstance(b.base, _np.ndarray):
            b = b.base
        return b

    def _cell(self, off, nbytes):
        if isinstance(off, I):
            return off // self.itemsize
        if nbytes is not None and nbytes != self.itemsize:
            core.ctx().unsupported('access width %d in array of %d' % (nbytes, self.itemsize))
        if off % self.itemsize:
            raise MemFault('misaligned access at byte %d' % off)
        return off // self.itemsize

    def load_cell(self, k):
        n = self.arr.shape[0]
        if isinstance(k, I):
            c = core.ctx()
            s = z3.simplify(k.t)
            if z3.is_bv_value(s):
                k = s.as_signed_long()
        if isinstance(k, I):
            if bool(B(z3.Or(k.t < 0, k.t >= n))):
                raise MemFault('read out of bounds (symbolic index, length %d)' % n)
            TRACE.note(self, k, 'r')
            v = self.arr[n - 1]
            for j in range(n - 2, -1, -1):
                v = _sel(k.t == j, self.arr[j], v)
            return v
        if k < 0 or k >= n:
            raise MemFault('read at index %d of an array of length %d' % (k, n))
        TRACE.note(self, k, 'r')
        return self.arr[k]

    def store_cell(self, k, v):
        n = self.arr.shape[0]
        if isinstance(k, I):
            s = z3.simplify(k.t)
            if z3.is_bv_value(s):
                k = s.as_signed_long()
        if isinstance(k, I):
            if bool(B(z3.Or(k.t < 0, k.t >= n))):
                raise MemFault('write out of bounds (symbolic index, length %d)' % n)
            TRACE.note(self, k, 'w')
            for j in range(n):
                self.arr[j] = _sel(k.t == j, v, self.arr[j])
            return
        if k < 0 or k >= n:
            raise MemFault('write at index %d of an array of length %d' % (k, n))
        TRACE.note(self, k, 'w')
        self.arr[k] = v

    def load(self, off, nbytes=None):
        return self.load_cell(self._cell(off, nbytes))

    def store(self, off, v, nbytes=None):
        self.store_cell(self._cell(off, nbytes), v)


def _sel(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = core.as_c(a), core.as_c(b)
        return Cx(core.ite(B(c), a.re, b.re), core.ite(B(c), a.im, b.im))
    if isinstance(a, R) or isinstance(b, R) or isinstance(a, float):
        return core.ite(B(c), a, b)
    return I(z3.If(c, core.as_i(a).t, core.as_i(b).t))


class RawMem(Mem):
    """Heap / stack / global bytes: cells keyed by offset."""

    def __init__(self, size, name='mem', zero=False):
        self.size = size
        self.name = name
        self.cells = {}
        self.zero = zero

    def _chk(self, off, nbytes):
        if isinstance(off, I):
            off = int(off)
        if off < 0 or off + nbytes > self.size:
            raise MemFault('access of %d bytes at offset %d of %s (%d bytes)'
                           % (nbytes, off, self.name, self.size))
        return off

    def load(self, off, nbytes=8):
        off = self._chk(off, nbytes)
        c = self.cells.get(off)
        if c is None:
            if self.zero:
                return 0
            raise MemFault('read of uninitialised memory at offset %d of %s' % (off, self.name))
        if c[0] != nbytes:
            core.ctx().unsupported('load width differs from store width')
        return c[1]

    def store(self, off, v, nbytes=8):
        off = self._chk(off, nbytes)
        for o in list(self.cells):
            n = self.cells[o][0]
            if o < off + nbytes and off < o + n and (o, n) != (off, nbytes):
                del self.cells[o]
        self.cells[off] = (nbytes, v)


class Ptr:
    __slots__ = ('mem', 'off')

    def __init__(self, mem, off=0):
        self.mem, self.off = mem, off

    def __add__(self, n):
        return Ptr(self.mem, self.off + n)

    def __repr__(self):
        return 'Ptr(%s+%s)' % (getattr(self.mem, 'name', 'arr'), self.off)


NULL = Ptr(None, 0)
