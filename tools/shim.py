"""Stand-ins for the packages this sandbox lacks (numba, traitlets, mpi4py),
so that the modules of the repository import and run as plain Python."""
import sys
import types


def _decorator(*a, **k):
    if len(a) == 1 and not k and callable(a[0]) and not isinstance(a[0], (_T, str)):
        return a[0]
    return lambda f: f


class _T:
    def __call__(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self


def _vectorize(*a, **k):
    import numpy as np

    def deco(f):
        g = np.vectorize(f)

        def h(*args, **kw):
            out = g(*args, **kw)
            return out[()] if np.ndim(out) == 0 else out
        return h
    if len(a) == 1 and not k and callable(a[0]) and not isinstance(a[0], (_T, str)):
        return deco(a[0])
    return deco


def _guvectorize(sigs, layout, **k):
    import numpy as np
    ins, out = layout.replace(' ', '').split('->')

    def deco(f):
        nd = [len([d for d in s.strip('()').split(',') if d]) for s in ins.split('),(')]
        names = [[d for d in s.strip('()').split(',') if d] for s in ins.split('),(')]
        oname = [d for d in out.strip('()').split(',') if d]

        def g(*args):
            args = [np.asarray(a) for a in args[:len(nd)]]
            dim = {}
            for a, ns in zip(args, names):
                for i, d in enumerate(ns):
                    dim[d] = a.shape[a.ndim - len(ns) + i]
            loop = np.broadcast_shapes(*[a.shape[:a.ndim - k] for a, k in zip(args, nd)])
            typ = complex if 'complex' in str(sigs) or any(np.iscomplexobj(a) for a in args) else float
            res = np.zeros(loop + tuple(dim[d] for d in oname), typ)
            bc = [np.broadcast_to(a, loop + a.shape[a.ndim - k:]) for a, k in zip(args, nd)]
            for ix in np.ndindex(*loop):
                o = res[ix] if oname else np.zeros(1, typ)
                f(*([b[ix] for b in bc] + [o]))
                if not oname:
                    res[ix] = o[0]
            return res
        return g
    return deco


def _no(k):
    raise AttributeError(k)


def install():
    import numpy as np
    np.seterr(all='ignore')
    if 'numba' not in sys.modules:
        m = types.ModuleType('numba')
        m.__getattr__ = lambda name: _T()
        m.njit = m.jit = _decorator
        m.prange = range
        m.vectorize = _vectorize
        m.guvectorize = _guvectorize
        m.__path__ = []
        t = types.ModuleType('numba.types')
        t.__getattr__ = lambda name: _T()
        c = types.ModuleType('numba.core')
        c.__path__ = []
        d = types.ModuleType('numba.core.decorators')
        d.njit = _decorator
        m.types, m.core = t, c
        sys.modules.update({'numba': m, 'numba.types': t, 'numba.core': c,
                            'numba.core.decorators': d})
    if sys.implementation.name == 'pypy':
        # scipy.optimize does not load on this interpreter
        for name in ('scipy.optimize', 'scipy.interpolate', 'scipy.fftpack'):
            m = types.ModuleType(name)
            m.__getattr__ = lambda k: (lambda *a, **b: None) if not k.startswith('__') else _no(k)
            sys.modules.setdefault(name, m)
    for name in ('traitlets', 'traitlets.traitlets'):
        try:
            __import__(name)
        except ImportError:
            m = types.ModuleType(name)
            m.__path__ = []
            m.default = None
            sys.modules[name] = m
    try:
        import mpi4py  # noqa
    except ImportError:
        m = types.ModuleType('mpi4py')
        M = types.ModuleType('mpi4py.MPI')
        M.SUM, M.COMM_WORLD = 'SUM', None
        m.MPI = M
        sys.modules.update({'mpi4py': m, 'mpi4py.MPI': M})


def cpython_psparse():
    """edpyt._psparse in plain numpy, for an interpreter without the extension."""
    import numpy as np
    m = types.ModuleType('edpyt._psparse')

    def dense(X):
        return X.toarray()

    def up(X, W, r):
        n = X.shape[0]
        r += (W.reshape(-1, n) @ dense(X).T).reshape(-1)

    def dw(X, W, r):
        n = X.shape[0]
        r += (dense(X) @ W.reshape(n, -1)).reshape(-1)

    def mul(X, W, r):
        r += dense(X) @ W
    m.UPmultiply, m.DWmultiply, m.Multiply = up, dw, mul
    sys.modules['edpyt._psparse'] = m
