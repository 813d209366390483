from .common import *

EXPLAIN = ('The reverse-communication driver runs against a model of dsaupd/dseupd that requests products '
           'with symbolic vectors at arbitrary places of the work array: each request must be answered '
           'with the operator applied to exactly that vector, the solver must be asked for the lowest '
           'states of a standard problem with admissible dimensions, and exactly the converged pairs, or '
           'the error of the phase that failed, must come back.')
BOUNDS = {'quick': 'dimension 2..6, 1..3 states, up to 4 requests in any order of work-array blocks, '
                   'every converged count, both error phases, optional start vector',
          'thorough': 'dimension up to 30 (more Lanczos vectors than states)'}
OUTSIDE = 'the numerics inside ARPACK'
STUBS = ['ARPACK dsaupd/dseupd: protocol model']

ERR = {'dsaupd': -9, 'dseupd': -14}


def driver(h):
    n, nev, places = h.param('n'), h.param('nev'), h.param('places')
    nconv, fail, start = h.param('nconv'), h.param('fail'), h.param('start')
    A = h.symmetric('A', n)
    seen, sent = [], []
    v0 = h.array('v0', n) if start else None
    lam, Z = h.array('lam', nev), h.array('Z', n, nev)

    def dsaupd(ido, bmat, which, nev_, tol, resid, v, iparam, ipntr, workd, workl, info, **k):
        i = len(seen)
        if i == 0:
            h.ok(ido == 0, 'fresh start of the iteration')
            h.ok(bmat == 'I' and which == 'SA' and int(nev_) == nev, 'lowest states of a standard problem')
            h.ok(int(iparam[0]) == 1 and int(iparam[2]) > 0 and int(iparam[6]) == 1, 'exact shifts, mode 1')
            ncv = v.shape[1]
            h.ok(v.shape[0] == n and ncv <= n and (nev < ncv or ncv == n), 'admissible number of Lanczos vectors')
            h.ok(len(workl) >= ncv * (ncv + 8) and len(workd) >= 3 * n and len(resid) >= n, 'work arrays large enough')
            if start:
                h.ok(int(info) == 1, 'start vector announced')
                h.eq(resid[:n], v0, 'start vector handed over')
            else:
                h.ok(int(info) == 0, 'random start vector')
        else:
            x, y, want, keep = sent[-1]
            h.eq(workd[y:y + n], want, 'requested product of the operator and the vector')
            for lo in range(0, 3 * n, n):
                if lo != y:
                    h.eq(workd[lo:lo + n], keep[lo:lo + n], 'rest of the work array untouched')
        seen.append(ido)
        ip, pp = iparam.copy(), ipntr.copy()
        if i < len(places):
            x, y = places[i][0] * n, places[i][1] * n
            vec = h.array('x%d' % i, n)
            workd[x:x + n] = vec
            if y != x:
                workd[y:y + n] = h.array('junk%d' % i, n)
            pp[0], pp[1] = x + 1, y + 1
            keep = np.array(workd, copy=True)
            sent.append((x, y, np.asarray(A).dot(np.asarray(vec)), keep))
            return (-1 if i == 0 else 1), tol, resid, v, ip, pp, 0
        ip[4] = nconv
        st = ERR['dsaupd'] if fail == 'dsaupd' else (1 if fail == 'both' else 0)
        return 99, tol, resid, v, ip, pp, st

    def dseupd(rvec, howmny, select, sigma, bmat, which, nev_, tol, resid, v, iparam, ipntr, workd,
               workl, info, **k):
        h.ok(bool(rvec) and howmny == 'A' and bmat == 'I' and which == 'SA' and int(nev_) == nev,
             'all requested eigenvectors extracted')
        h.ok(len(iparam) == 7 and len(workd) == 2 * n, 'array sections expected by the extraction')
        if fail in ('dseupd', 'both'):
            return lam.copy(), Z.copy(), ERR['dseupd']
        return lam.copy(), Z.copy(), 0
    w = h.new_world(stubs={'arpack.dsaupd': dsaupd, 'arpack.dseupd': dseupd})
    ea = w.eigh_arpack

    def mv(x):
        return h.wrap(np.asarray(A).dot(np.asarray(x)))
    try:
        d, z = ea.eigsh(n, nev, mv, v0) if start else ea.eigsh(n, nev, mv)
    except RuntimeError as e:
        h.ok(fail is not None, 'no error without a failure')
        if fail == 'dsaupd':
            h.ok(ea.DSAUPD_ERRORS[ERR['dsaupd']] in str(e), 'error of the iteration reported')
        elif fail:
            h.ok(ea.DSEUPD_ERRORS[ERR['dseupd']] in str(e), 'error of the extraction reported')
        return
    h.ok(fail is None, 'failures are reported')
    h.ok(len(seen) == len(places) + 1, 'iterates until the solver is done')
    h.eq(d, lam[:nconv], 'converged eigenvalues')
    h.eq(z, Z[:, :nconv], 'converged eigenvectors')


def instances(tier):
    q = tier == 'quick'
    P = [((0, 1),), ((0, 1), (1, 0)), ((2, 1), (1, 2), (0, 1)), ((0, 2), (2, 0), (1, 0), (0, 1)), ()]
    i = 0
    for n in (2, 3, 4, 6) + (() if q else (25, 30)):
        for nev in (1, 2, 3):
            if nev >= n:
                continue
            for pl in P:
                i += 1
                yield Inst('driver_%d_n%d_k%d' % (i, n, nev), driver,
                           dict(n=n, nev=nev, places=pl, nconv=nev if i % 3 else i % (nev + 1), fail=None, start=i % 2 == 0),
                           timeout=200, abstract_mul=True)
    for f in ('dsaupd', 'dseupd', 'both'):
        yield Inst('fail_%s' % f, driver, dict(n=4, nev=2, places=P[1], nconv=2, fail=f, start=False))
