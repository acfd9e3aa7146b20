"""Reference for packed polynomial matrices: nested Python lists [i][j][d] of (symbolic) integers."""
import itertools

import numpy as np


def entries(h, name, shape, lo=None, hi=None):
    """Nested lists of arbitrary integers."""
    if not shape:
        return h.int(name, lo, hi) if lo is None else h.fin(name, lo, hi)
    return [entries(h, f'{name}_{i}', shape[1:], lo, hi) for i in range(shape[0])]


def array(a, shape, dtype=np.int64):
    r = np.zeros(shape, dtype=dtype)
    for ix in itertools.product(*map(range, shape)):
        v = a
        for i in ix:
            v = v[i]
        r[ix] = v
    return r


def sym(h, name, shape, dtype=np.int64, lo=None, hi=None):
    a = entries(h, name, shape, lo, hi)
    return a, array(a, shape, dtype)


def at(a, ix):
    for i in ix:
        a = a[i]
    return a


def zero(h, a, shape):
    """Every entry is zero."""
    return h.all([h.eq(at(a, ix), 0) for ix in itertools.product(*map(range, shape))])


def degrees(h, a, I, J, D):
    """For one matrix: which degrees have a nonzero entry."""
    return [h.any([h.not_(h.eq(a[i][j][d], 0)) for i in range(I) for j in range(J)]) for d in range(D)]


def mul(a, b, I, J, K, D, E, P):
    return [[[sum([a[i][j][e] * b[j][k][d - e] for j in range(J) for e in range(D) if 0 <= d - e < E]) for d in range(P)] for k in range(K)] for i in range(I)]


def same(h, label, A, a, shape, dtype=None):
    """The array A has this shape and exactly the entries a."""
    h.check(label + ': shape', tuple(A.shape) == tuple(shape))
    if dtype is not None:
        h.check(label + ': type', A.dtype == dtype)
    h.check(label, h.all([h.eq(A[ix], at(a, ix)) for ix in itertools.product(*map(range, shape))]))
