"""The C fitting library, interpreted from LLVM IR and (concretely) natively."""
import ctypes
import glob
import os
import shutil
import tempfile

import numpy as np

from symx import llvmir, mem, world as _world
from symx.core import R, Cx
from symx.runner import Skip
from symx.mem import Ptr, ArrMem, RawMem, MemFault

_lib = {}


def sources():
    """What build_shared.sh compiles."""
    root = _world.REPO
    return sorted(os.path.relpath(f, root) for f in glob.glob(os.path.join(root, 'edpyt_backend', '[a-z]*.c')))


def machine(h, *need):
    m = llvmir.machine(h.world, sources())
    for f in need:
        if f not in m.p.funcs:
            raise Skip('no C function %s' % f)
    return m


def lib():
    """The library built natively (concrete replays)."""
    key = _world.REPO
    if key not in _lib:
        d = tempfile.mkdtemp(prefix='symx_fit_')
        try:
            so = os.path.join(d, 'libfit.so')
            llvmir.build_so(sources(), so, ['-O3', '-funroll-loops'])
            _lib[key] = ctypes.CDLL(so)
        except Exception:
            _lib[key] = None
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _lib[key]


def vec(a):
    """Pointer to the cells of a numpy vector."""
    return Ptr(ArrMem(a, 8), 0)


def cvec(a):
    return Ptr(ArrMem(a, 16), 0)


def cell(m, v=None, nbytes=8):
    r = RawMem(nbytes, 'cell')
    if v is not None:
        r.store(0, v, nbytes)
    return Ptr(r, 0)


def get(p, nbytes=8):
    return p.mem.load(p.off, nbytes)


def fresh(h, n):
    """Uninitialised doubles."""
    r = RawMem(8 * n, 'out')
    return Ptr(r, 0)


def read(h, p, n):
    out = np.empty(n, object)
    for i in range(n):
        out[i] = p.mem.load(p.off + 8 * i, 8)
    return h.wrap(out) if h.sym else np.asarray(out, float)


def leaks(m):
    return [x.name for x in m.live if x.name.startswith('heap') and id(x) not in m.freed]


def carr(h, xs):
    out = np.empty(len(xs), object)
    for i, x in enumerate(xs):
        out[i] = x
    return h.wrap(out) if h.sym else np.array([complex(x) for x in xs])
