"""A deterministic MPI communicator: the ranks are threads of which exactly one
runs at a time; a collective completes when every rank has entered the same
one.  Ranks that diverge (different collective, one rank finished) deadlock on
a real machine and are reported as Deadlock."""
import sys
import threading
import types

import numpy as _np

from . import core


class Deadlock(Exception):
    pass


class MPIError(ValueError):
    pass


SUM, MAX, MIN, PROD = 'SUM', 'MAX', 'MIN', 'PROD'
IN_PLACE = object()


class _Kill(BaseException):
    pass


def _red(op, xs):
    out = xs[0]
    if isinstance(out, _np.ndarray):
        out = out.copy()
    for x in xs[1:]:
        if op == SUM:
            out = out + x
        elif op == PROD:
            out = out * x
        elif op == MAX:
            out = _np.maximum(out, x)
        elif op == MIN:
            out = _np.minimum(out, x)
        else:
            raise MPIError('op %r' % (op,))
    return out


def _buf(spec, blocks=1):
    """(flat writable view, count per block)"""
    cnt = None
    if isinstance(spec, (list, tuple)):
        a = spec[0]
        for s in spec[1:]:
            if isinstance(s, (int, _np.integer)):
                cnt = int(s)
            elif isinstance(s, (tuple, list)):
                cnt = int(s[0])
    else:
        a = spec
    if not isinstance(a, _np.ndarray):
        raise MPIError('not a buffer')
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise MPIError('ndarray is not contiguous')
    if a.flags.c_contiguous:
        flat = _np.asarray(a).reshape(-1)
    else:
        flat = _np.asarray(a).T.reshape(-1)
    if cnt is None:
        if flat.size % blocks:
            raise MPIError('not a multiple of the required number of blocks')
        cnt = flat.size // blocks
    if cnt < 0:
        raise MPIError('negative count')
    if cnt * blocks > flat.size:
        raise MPIError('message: buffer too small for requested count')
    return flat, cnt


class Comm:
    def __init__(self, grp, rank):
        self.grp, self.rank, self.size = grp, rank, grp.size

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def _coll(self, kind, key, data):
        return self.grp.collective(self.rank, kind, key, data)

    def Barrier(self):
        self._coll('Barrier', (), None)
    barrier = Barrier

    def Alltoall(self, send, recv):
        s, ns = _buf(send, self.size)
        r, nr = _buf(recv, self.size)
        parts = self._coll('Alltoall', (ns,), s[:ns * self.size].copy())
        if ns != nr:
            raise MPIError('truncated message')
        for p in range(self.size):
            r[p * nr:(p + 1) * nr] = parts[p][self.rank * ns:(self.rank + 1) * ns]

    def Allgather(self, send, recv):
        r, nr = _buf(recv, self.size)
        if send is IN_PLACE:
            s, ns = r[self.rank * nr:(self.rank + 1) * nr], nr
        else:
            s, ns = _buf(send)
        parts = self._coll('Allgather', (ns,), s[:ns].copy())
        if ns != nr:
            raise MPIError('truncated message')
        for p in range(self.size):
            r[p * nr:(p + 1) * nr] = parts[p]

    def Allreduce(self, send, recv, op=SUM):
        r, nr = _buf(recv)
        if send is IN_PLACE:
            s, ns = r, nr
        else:
            s, ns = _buf(send)
        parts = self._coll('Allreduce', (ns, op), s[:ns].copy())
        if ns != nr:
            raise MPIError('truncated message')
        r[:nr] = _red(op, parts)

    def Reduce(self, send, recv, op=SUM, root=0):
        s, ns = _buf(send)
        parts = self._coll('Reduce', (ns, op, root), s[:ns].copy())
        if self.rank == root:
            r, nr = _buf(recv)
            r[:nr] = _red(op, parts)

    def Bcast(self, buf, root=0):
        s, ns = _buf(buf)
        parts = self._coll('Bcast', (ns, root), s[:ns].copy())
        s[:ns] = parts[root]

    def Gather(self, send, recv, root=0):
        s, ns = _buf(send)
        parts = self._coll('Gather', (ns, root), s[:ns].copy())
        if self.rank == root:
            r, nr = _buf(recv, self.size)
            for p in range(self.size):
                r[p * nr:(p + 1) * nr] = parts[p]

    def Scatter(self, send, recv, root=0):
        r, nr = _buf(recv)
        s = _buf(send, self.size)[0].copy() if self.rank == root else None
        parts = self._coll('Scatter', (root,), s)
        r[:nr] = parts[root][self.rank * nr:(self.rank + 1) * nr]

    def allreduce(self, x, op=SUM):
        return _red(op, self._coll('allreduce', (op,), x))

    def reduce(self, x, op=SUM, root=0):
        r = _red(op, self._coll('reduce', (op, root), x))
        return r if self.rank == root else None

    def allgather(self, x):
        return list(self._coll('allgather', (), x))

    def gather(self, x, root=0):
        r = self._coll('gather', (root,), x)
        return list(r) if self.rank == root else None

    def bcast(self, x, root=0):
        return self._coll('bcast', (root,), x)[root]

    def alltoall(self, xs):
        r = self._coll('alltoall', (), list(xs))
        return [r[p][self.rank] for p in range(self.size)]


class Group:
    def __init__(self, size):
        self.size = size
        self.cv = threading.Condition()
        self.turn = 0
        self.state = ['run'] * size      # run | wait | done
        self.slot = [None] * size
        self.result = [None] * size
        self.exc = None
        self.collectives = 0

    # only the thread whose turn it is runs; the others wait on the condition
    def _switch(self, rank):
        """Give the turn to the next runnable rank; called with cv held."""
        live = [r for r in range(self.size) if self.state[r] == 'run']
        if not live:
            wait = [r for r in range(self.size) if self.state[r] == 'wait']
            if wait:
                kinds = set(self.slot[r][:2] for r in wait)
                if len(wait) < self.size or len(kinds) > 1:
                    if self.exc is None:
                        self.exc = Deadlock('ranks disagree: %s' % [
                            self.slot[r][0] if self.state[r] == 'wait' else 'finished'
                            for r in range(self.size)])
                else:
                    parts = [self.slot[r][2] for r in range(self.size)]
                    self.collectives += 1
                    for r in range(self.size):
                        self.result[r] = parts
                        self.state[r] = 'run'
                    self.turn = 0
                    self.cv.notify_all()
                    return
            self.turn = -1
        else:
            self.turn = min(live, key=lambda r: (r - rank - 1) % self.size)
        self.cv.notify_all()

    def _await(self, rank):
        while self.turn != rank and self.exc is None:
            self.cv.wait(300)
        if self.exc is not None:
            raise _Kill()

    def collective(self, rank, kind, key, data):
        with self.cv:
            self.slot[rank] = (kind, key, data)
            self.state[rank] = 'wait'
            self._switch(rank)
            self._await(rank)
            return self.result[rank]

    def run(self, fn):
        """fn(comm) on every rank -> list of results."""
        out = [None] * self.size

        def body(r):
            try:
                with self.cv:
                    self._await(r)
                out[r] = fn(Comm(self, r))
            except _Kill:
                return
            except BaseException as e:
                with self.cv:
                    if self.exc is None:
                        self.exc = e
                    self.cv.notify_all()
                return
            with self.cv:
                self.state[r] = 'done'
                self._switch(r)
        old = threading.stack_size(64 * 1024 * 1024)
        try:
            ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
            for t in ts:
                t.start()
        finally:
            threading.stack_size(old)
        for t in ts:
            t.join()
        if self.exc is not None:
            raise self.exc
        return out


def module():
    m = types.ModuleType('mpi4py')
    M = types.ModuleType('mpi4py.MPI')
    M.SUM, M.MAX, M.MIN, M.PROD, M.IN_PLACE = SUM, MAX, MIN, PROD, IN_PLACE
    M.DOUBLE, M.COMPLEX16 = 'd', 'D'
    M.COMM_WORLD = solo()
    m.MPI = M
    return m


def _single(comm):
    g = comm.grp

    def collective(rank, kind, key, data):
        return [data]
    g.collective = collective
    return comm


def solo():
    return _single(Comm(Group(1), 0))
