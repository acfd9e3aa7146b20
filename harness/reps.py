"""Reference representations: matrices of dictionary polynomials {exponent: coefficient}."""
import functools

from . import tlref as R
from .polys import add as padd, mul as pmul, check_lpoly
from peyl.lpoly import LPoly
from peyl.matrix import Matrix


def identity(d):
    return [[{0: 1} if i == j else {} for j in range(d)] for i in range(d)]


def trimmed(p, m=0):
    if m:
        p = {e: c % m for e, c in p.items()}
    return {e: c for e, c in p.items() if not (type(c) is int and c == 0)}


def mmul(A, B, m=0):
    n, k = len(A), len(B[0])
    out = []
    for i in range(n):
        row = []
        for j in range(k):
            p = {}
            for l in range(len(B)):
                if A[i][l] and B[l][j]:
                    p = padd(p, pmul(A[i][l], B[l][j]))
            row.append(trimmed(p, m))
        out.append(row)
    return out


def mword(gens, invs, word, d, m=0):
    r = identity(d)
    for i, e in word:
        for _ in range(abs(e)):
            r = mmul(r, gens[i] if e > 0 else invs[i], m)
    return [[trimmed(p, m) for p in row] for row in r]


@functools.lru_cache(maxsize=None)
def cellbasis(n, r):
    return [s for s in R.matchings(2 * n - 2 * r) if R.through(n, n - 2 * r, s) == n - 2 * r]


@functools.lru_cache(maxsize=None)
def jones(n, r):
    """The documented convention: the generator acts as 1 - v e, its inverse as 1 - e / v."""
    B = cellbasis(n, r)
    m = n - 2 * r
    gens, invs = [], []
    for i in range(n - 1):
        for out, x in ((gens, 1), (invs, -1)):
            M = identity(len(B))
            for j, b in enumerate(B):
                s, l = R.compose(n, n, m, R.cupcap(i, n), b)
                if R.through(n, m, s) != m:
                    continue
                p = {x: -1}
                for _ in range(l):
                    p = pmul(p, {-1: 1, 1: 1})
                k = B.index(s)
                M[k][j] = trimmed(padd(M[k][j], p))
            out.append(M)
    return gens, invs


def check_matrix(h, label, M, want, m=0):
    d = len(want)
    h.check(label + ': shape', isinstance(M, Matrix) and (M.nrows, M.ncols) == (d, len(want[0])))
    for i in range(d):
        for j in range(len(want[0])):
            check_lpoly(h, label, LPoly.coerce(M[i, j]), 0, trimmed(want[i][j], m))
