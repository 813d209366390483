"""Shared oracles: second quantisation written independently of edpyt."""
import itertools
import math
from fractions import Fraction

import numpy as np

from symx.runner import Inst, Skip
from symx import core
from symx.core import R, Cx, I, B


def popcount(s, n=64):
    if isinstance(s, I):
        t = 0
        for k in range(n):
            t = t + ((s >> k) & 1)
        return t
    return bin(int(s)).count('1')


def basis(n, p):
    """States of n levels with p particles, ascending."""
    return [s for s in range(1 << n) if bin(s).count('1') == p]


# -- Fock space of m modes; the sign counts the occupied modes above ---------
def f_c(s, k, m, sgn=1):
    if s is None or not (s >> k) & 1:
        return None, 0
    return s ^ (1 << k), sgn * (-1) ** bin(s >> (k + 1)).count('1')


def f_cdg(s, k, m, sgn=1):
    if s is None or (s >> k) & 1:
        return None, 0
    return s | (1 << k), sgn * (-1) ** bin(s >> (k + 1)).count('1')


def apply_string(s, ops, m):
    """ops: list of ('c'|'d', mode) applied right-most first."""
    sgn = 1
    for kind, k in reversed(ops):
        s, sgn = (f_c if kind == 'c' else f_cdg)(s, k, m, sgn)
        if s is None:
            return None, 0
    return s, sgn


def sz_states(n, nup, ndw):
    """Full 2n-mode states of the sector in the order iup + dup*idw."""
    return [u | (d << n) for d in basis(n, ndw) for u in basis(n, nup)]


def second_quantised(n, states, terms, zero=0):
    """Dense matrix M[f, i] of sum coeff * string on the given states."""
    m = 2 * n
    ix = {s: k for k, s in enumerate(states)}
    M = np.empty((len(states), len(states)), object)
    M[...] = zero
    for coef, ops in terms:
        for s, k in ix.items():
            f, sgn = apply_string(s, ops, m)
            if f is not None and f in ix:
                M[ix[f], k] = M[ix[f], k] + coef * sgn
    return M


def one_body_terms(H, n, mu=0):
    """H: [2][n][n] or (n, n)."""
    out = []
    for sp in range(2):
        h = H[sp] if np.ndim(H) == 3 else H
        for i in range(n):
            for j in range(n):
                out.append((h[i][j] + (mu if i == j else 0),
                            [('d', i + sp * n), ('c', j + sp * n)]))
    return out


def coulomb_diag(n, states, U, hf, z, one):
    """Diagonal of the density-density interaction."""
    half = one / 2
    out = []
    for s in states:
        nu = [(s >> i) & 1 for i in range(n)]
        nd = [(s >> (i + n)) & 1 for i in range(n)]
        e = one * 0
        for i in range(n):
            if hf:
                e = e + U[i][i] * ((nu[i] - half) * (nd[i] - half))
            else:
                e = e + U[i][i] * (nu[i] * nd[i])
            for j in range(n):
                if i != j:
                    e = e + half * U[i][j] * ((nu[i] + nd[i] - z[i]) * (nu[j] + nd[j] - z[j]))
        out.append(e)
    return out


def jx_terms(J, n):
    """1/2 sum_{i!=j, s, s'} J_ij c+_is c+_js' c_is' c_js"""
    return [(J[i][j] / 2, [('d', i + s * n), ('d', j + t * n), ('c', i + t * n), ('c', j + s * n)])
            for i in range(n) for j in range(n) if i != j for s in range(2) for t in range(2)]


def jp_terms(J, n):
    """1/2 sum_{i!=j, s} J_ij c+_is c+_i-s c_j-s c_js"""
    return [(J[i][j] / 2, [('d', i + s * n), ('d', i + (1 - s) * n), ('c', j + (1 - s) * n),
                           ('c', j + s * n)])
            for i in range(n) for j in range(n) if i != j for s in range(2)]


def sector(h, n, *p):
    """A sector object as the code builds it: p = (N,) or (nup, ndw)."""
    return h.world.espace.build_empty_sector(n, *p)


class NPProxy:
    """numpy as a module of the code sees it, some functions replaced."""

    def __init__(self, base, **over):
        self.__dict__.update(_base=base, _over=over)

    def __getattr__(self, k):
        o = self.__dict__['_over']
        return o[k] if k in o else getattr(self.__dict__['_base'], k)


def patch_np(mod, linalg=None, **over):
    """Replaces functions of numpy (and numpy.linalg) inside one module."""
    base = mod.np
    if linalg:
        over['linalg'] = NPProxy(base.linalg, **linalg)
    mod.np = NPProxy(base, **over)
