"""R04: packed polynomial matrices."""
import itertools

import numpy as np

from peyl import polymat
from peyl.lpoly import LPoly
from peyl.matrix import Matrix
from .common import Task, conc, add_sequence, sequence
from .polys import check_lpoly
from . import mats
from .mats import at, sym, same

OUTSIDE = 'larger shapes than the stated bounds; 64-bit overflow'
ASSUMPTIONS = ['entries of 64-bit arrays are treated as mathematical integers']


def trim(h, prefix, I, J, D):
    shape = (*prefix, I, J, D)
    a, A = sym(h, 'a', shape)
    flat = list(itertools.product(*map(range, shape[:-1])))
    live = [h.any([h.not_(h.eq(at(a, ix)[d], 0)) for ix in flat]) for d in range(D)]
    R = polymat.trim(A)
    K = R.shape[-1]
    same(h, 'trim', R, a, (*shape[:-1], K))
    h.check('trim: only zeros dropped', h.all([h.not_(l) for l in live[K:]]))
    h.check('trim: minimal', K == 0 or live[K - 1])
    s, L = polymat.trim_left(A)
    s = conc(s)
    K = L.shape[-1]
    h.check('trim_left: length', s + K == D)
    h.check('trim_left', h.all([h.eq(at(L, ix)[d], at(a, ix)[d + s]) for ix in flat for d in range(K)]))
    h.check('trim_left: only zeros dropped', h.all([h.not_(l) for l in live[:s]]))
    h.check('trim_left: minimal', K == 0 or live[s])
    same(h, 'argument untouched', A, a, shape)


def product(h, I, J, K, D, E, q, lo, hi):
    a, A = sym(h, 'a', (I, J, D), lo=lo, hi=hi)
    b, B = sym(h, 'b', (J, K, E), lo=lo, hi=hi)
    P = D + E - 1 if q is None else q
    R = polymat.mul(A, B) if q is None else polymat.mul(A, B, q)
    same(h, 'product', R, mats.mul(a, b, I, J, K, D, E, P), (I, K, P), np.int64)
    same(h, 'left argument untouched', A, a, (I, J, D))
    same(h, 'right argument untouched', B, b, (J, K, E))
    h.observe('R', R)


def some(h, name, shape, where, s=0):
    """Fixed integers (zeros among them) with one arbitrary entry."""
    idx = list(itertools.product(*map(range, shape)))
    flat = {ix: (k * 5 + s) % 7 - 3 for k, ix in enumerate(idx)}
    flat[idx[where % len(idx)]] = h.int(name)

    def nest(pre):
        return flat[pre] if len(pre) == len(shape) else [nest(pre + (i,)) for i in range(shape[len(pre)])]
    a = nest(())
    return a, mats.array(a, shape)


def large(h, I, J, K, D, E, q):
    """Larger products of fixed integers, one entry of each factor arbitrary."""
    at1, at2 = conc(h.fin('at', [0, I * J * D // 2, I * J * D - 1])), conc(h.fin('bt', [0, J * K * E // 3, J * K * E - 1]))
    a, A = some(h, 'a', (I, J, D), at1)
    b, B = some(h, 'b', (J, K, E), at2, 2)
    P = D + E - 1 if q is None else q
    R = polymat.mul(A, B) if q is None else polymat.mul(A, B, q)
    same(h, 'product', R, mats.mul(a, b, I, J, K, D, E, P), (I, K, P), np.int64)


def many(h, m, I, J, D):
    """Many matrices of different widths and valuations packed together, one entry arbitrary."""
    at1 = conc(h.fin('at', [0, 1, m // 2, m - 1]))
    ds = [1 + (i * 3) % D for i in range(m)]
    ms = [some(h, 'a', (I, J, ds[i]), ds[i] - 1, i) if i == at1 else (lambda x: (x, mats.array(x, (I, J, ds[i]))))([[[(i + j + k + d) % 5 - 1 if d < ds[i] - 1 else 3 for d in range(ds[i])] for k in range(J)] for j in range(I)]) for i in range(m)]
    W = max(ds)
    pad = lambda x, w=W: [[e + [0] * (w - len(e)) for e in r] for r in x]
    want = [pad(a) for a, _ in ms]
    P = polymat.pack([A for _, A in ms])
    same(h, 'pack', P, want, (m, I, J, W))
    C = polymat.concatenate([A.reshape((1, I, J, ds[i])) for i, (_, A) in enumerate(ms)])
    same(h, 'concatenate', C, want, (m, I, J, W))
    live = [mats.degrees(h, a, I, J, ds[i]) for i, (a, _) in enumerate(ms)]
    for l in live:
        h.assume(h.any(l))
    R = polymat.projectivise(P)
    V = R.shape[-1]
    for i in range(m):
        for v in range(ds[i]):
            low = h.all([h.not_(l) for l in live[i][:v]] + [live[i][v]])
            h.check('divided by its own lowest power', h.implies(low, h.all([h.eq(R[i, j, k, d], want[i][j][k][d + v] if d + v < W else 0) for j in range(I) for k in range(J) for d in range(V)])))


def broadcast(h, alpha, beta, I, J, K, D, E):
    a, A = sym(h, 'a', (*alpha, I, J, D))
    b, B = sym(h, 'b', (*beta, J, K, E))
    R = polymat.mul(A, B)
    n = max(len(alpha), len(beta))
    al, be = (1,) * (n - len(alpha)) + tuple(alpha), (1,) * (n - len(beta)) + tuple(beta)
    pre = tuple(y if x == 1 else x for x, y in zip(al, be))
    h.check('shape', tuple(R.shape) == (*pre, I, K, D + E - 1))
    for ix in itertools.product(*map(range, pre)):
        ia = tuple(0 if s == 1 else i for s, i in zip(al, ix))[n - len(alpha):]
        ib = tuple(0 if s == 1 else i for s, i in zip(be, ix))[n - len(beta):]
        same(h, 'product', R[ix], mats.mul(at(a, ia), at(b, ib), I, J, K, D, E, D + E - 1), (I, K, D + E - 1))


def refused(h, N):
    """Incompatible shapes are refused."""
    I, J, J2, K = (conc(h.fin(s, 1, N)) for s in 'ijkl')
    A, B = np.zeros((I, J, 1), dtype=int) + 1, np.zeros((J2, K, 2), dtype=int) + 1
    h.check('product', h.raises(AssertionError, lambda: polymat.mul(A, B)) == (J != J2))
    h.check('pack', h.raises(AssertionError, lambda: polymat.pack([A, B])) == ((I, J) != (J2, K)))
    h.check('concatenate', h.raises(AssertionError, lambda: polymat.concatenate([A[None], B[None]])) == ((I, J) != (J2, K)))
    D = conc(h.fin('d', 0, 3))
    h.check('zeropad', h.raises(AssertionError, lambda: polymat.zeropad(B, D)) == (D < 2))
    h.check('negative truncation', h.raises(AssertionError, lambda: polymat.mul(A, np.zeros((J, K, 2), dtype=int), -1)))
    h.check('nothing to pack', h.raises(AssertionError, lambda: polymat.pack([])))
    h.check('nothing to concatenate', polymat.concatenate([]).shape[0] == 0)


def width(h, mats_, I, J):
    """The least width holding all of the given (matrix, width) pairs, as a list of (literal, width)."""
    W = max(D for _, D in mats_)
    live = []
    for d in range(W):
        live.append(h.any([mats.degrees(h, a, I, J, D)[d] for a, D in mats_ if d < D]))
    return live


def pack(h, I, J, Ds):
    As = [sym(h, f'a{k}_', (I, J, D)) for k, D in enumerate(Ds)]
    R = polymat.pack([A for _, A in As])
    W = R.shape[-1]
    live = width(h, [(a, D) for (a, _), D in zip(As, Ds)], I, J)
    h.check('least width', h.all([W <= len(live), W == 0 or live[W - 1]] + [h.not_(l) for l in live[W:]]))
    same(h, 'pack', R, [[[[a[i][j][d] if d < D else 0 for d in range(W)] for j in range(J)] for i in range(I)] for (a, _), D in zip(As, Ds)], (len(Ds), I, J, W), np.int64)


def concatenate(h, I, J, sizes):
    As = [sym(h, f'a{k}_', (n, I, J, D)) for k, (n, D) in enumerate(sizes)]
    R = polymat.concatenate([A for _, A in As])
    W = R.shape[-1]
    each = [(a[m], D) for (a, _), (n, D) in zip(As, sizes) for m in range(n)]
    live = width(h, each, I, J)
    h.check('least width', h.all([W <= len(live), W == 0 or live[W - 1]] + [h.not_(l) for l in live[W:]]))
    same(h, 'concatenate', R, [[[[a[i][j][d] if d < D else 0 for d in range(W)] for j in range(J)] for i in range(I)] for a, D in each], (len(each), I, J, W))


def zeropad(h, prefix, I, J, D, L):
    a, A = sym(h, 'a', (*prefix, I, J, D))
    R = polymat.zeropad(A, L)
    h.check('shape', tuple(R.shape) == (*prefix, I, J, L))
    h.check('zeropad', h.all([h.eq(R[(*ix, d)], at(a, ix)[d] if d < D else 0) for ix in itertools.product(*map(range, (*prefix, I, J))) for d in range(L)]))


def convert(h, I, J, D):
    """From packed to ordinary matrices and back."""
    a, A = sym(h, 'a', (I, J, D))
    M = polymat.to_matrix(A)
    h.check('to_matrix: shape', isinstance(M, Matrix) and (M.nrows, M.ncols) == (I, J))
    for i in range(I):
        for j in range(J):
            check_lpoly(h, 'to_matrix', M[i, j], 0, {d: a[i][j][d] for d in range(D)})
    R = polymat.from_matrix(M)
    W = R.shape[-1]
    same(h, 'back again', R, [[[a[i][j][d] if d < D else 0 for d in range(W)] for j in range(J)] for i in range(I)], (I, J, W))
    live = mats.degrees(h, a, I, J, D)
    h.check('nothing lost', h.all([h.not_(l) for l in live[W:]]))


def laurent(h, I, J, k, lo, hi):
    """From matrices of Laurent polynomials, projectively or not."""
    vs = [[conc(h.fin(f'v{i}{j}', lo, hi)) for j in range(J)] for i in range(I)]
    cs = [[[h.int(f'c{i}{j}{e}') for e in range(k)] for j in range(J)] for i in range(I)]
    M = Matrix(I, J, tuple(LPoly(vs[i][j], cs[i][j]) for i in range(I) for j in range(J)))
    live = {}
    for i in range(I):
        for j in range(J):
            for e in range(k):
                live.setdefault(vs[i][j] + e, []).append(h.not_(h.eq(cs[i][j][e], 0)))
    live = {d: h.any(ls) for d, ls in live.items()}
    negative = h.any([l for d, l in live.items() if d < 0])
    h.check('refused exactly with negative powers', h.iff(h.raises(ValueError, lambda: polymat.from_matrix(M)), negative))
    R = polymat.from_matrix(M, proj=True)
    h.check('shape', len(R.shape) == 3 and R.shape[:2] == (I, J))
    W = R.shape[-1]
    # the lowest power, when negative, is divided out
    for s in range(min(lo, 0), 1):
        lowest = h.all([h.not_(live[d]) for d in live if d < s] + ([live.get(s, False)] if s < 0 else []))
        want = [[[cs[i][j][d + s - vs[i][j]] if 0 <= d + s - vs[i][j] < k else 0 for d in range(W)] for j in range(J)] for i in range(I)]
        ok = [h.eq(R[i, j, d], want[i][j][d]) for i in range(I) for j in range(J) for d in range(W)]
        h.check('coefficients', h.implies(lowest, h.all(ok + [h.not_(live[d]) for d in live if d >= s + W])))
    if h.not_(negative):
        same(h, 'without proj', polymat.from_matrix(M), [[[R[i, j, d] for d in range(W)] for j in range(J)] for i in range(I)], (I, J, W))


def integers(h, I, J):
    m = [[h.int(f'm{i}{j}') for j in range(J)] for i in range(I)]
    A = polymat.from_matrix(Matrix.from_rows(m))
    same(h, 'integer matrix', A, [[[m[i][j]] for j in range(J)] for i in range(I)], (I, J, 1))


def projectivise(h, prefix, I, J, D):
    a, A = sym(h, 'a', (*prefix, I, J, D))
    idx = list(itertools.product(*map(range, prefix)))
    lives = {ix: mats.degrees(h, at(a, ix), I, J, D) for ix in idx}
    nz = h.all([h.any(lives[ix]) for ix in idx])
    h.check('zero matrices refused', h.iff(h.raises(AssertionError, lambda: polymat.projectivise(A)), h.not_(nz)))
    h.assume(nz)
    s, e = polymat.proj_starts_ends(A)
    R = polymat.projectivise(A)
    W = R.shape[-1]
    h.check('shape', tuple(R.shape) == (*prefix, I, J, W))
    full = []
    for ix in idx:
        live, m, r = lives[ix], at(a, ix), R[ix] if ix else R
        si, ei = (s[ix], e[ix]) if ix else (s, e)
        for v in range(D):
            low = h.all([h.not_(l) for l in live[:v]] + [live[v]])
            h.check('start', h.iff(h.eq(si, v), low))
            top = h.all([live[v]] + [h.not_(l) for l in live[v + 1:]])
            h.check('end', h.iff(h.eq(ei, v + 1), top))
            ok = [h.eq(r[i, j, d], m[i][j][d + v] if d + v < D else 0) for i in range(I) for j in range(J) for d in range(W)]
            h.check('divided by its own lowest power', h.implies(low, h.all(ok + [h.not_(l) for l in live[v + W:]])))
            if 0 <= v + W - 1 < D:
                full.append(h.all([low, live[v + W - 1]]))
    h.check('least uniform width', h.any(full))
    same(h, 'argument untouched', A, a, (*prefix, I, J, D))
    T = polymat.projectivise(R)
    h.check('idempotent', tuple(T.shape) == tuple(R.shape) and h.eq(T, R))


def eye(h, n):
    h.check('identity', h.eq(polymat.eye(n), np.array([[[int(i == j)] for j in range(n)] for i in range(n)])))
    a, A = sym(h, 'a', (n, n, 2))
    same(h, 'neutral on the left', polymat.mul(polymat.eye(n), A), a, (n, n, 2))
    same(h, 'neutral on the right', polymat.mul(A, polymat.eye(n)), a, (n, n, 2))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for pre, I, J, D in (((), 1, 1, 3), ((), 2, 2, 3), ((2,), 1, 2, 3), ((2, 2), 1, 1, 3), ((), 2, 1, 5), ((3,), 2, 2, 4), ((), 1, 1, 0)):
        t('trim', 1, f'shape {(*pre, I, J, D)}, any integer entries', prefix=pre, I=I, J=J, D=D)
    for I, J, K, D, E, q, base in ((1, 1, 1, 1, 1, None, 1), (1, 1, 1, 3, 2, None, 1), (2, 2, 2, 2, 2, None, 1), (2, 3, 1, 2, 3, None, 1), (1, 2, 3, 1, 4, None, 1), (2, 2, 2, 3, 3, 2, 1), (2, 2, 2, 2, 2, 5, 1), (1, 2, 1, 2, 3, 0, 1),
                                   (3, 3, 3, 3, 3, None, 1), (2, 2, 2, 3, 2, 3, 1), (2, 2, 2, 0, 2, None, 1), (4, 4, 4, 4, 4, None, 0)):
        t('product', base, f'{I} x {J} by {J} x {K} with {D} and {E} coefficients, truncation {q}, any integer entries', I=I, J=J, K=K, D=D, E=E, q=q, lo=None, hi=None)
    for al, be in (((2,), ()), ((), (2,)), ((2,), (2,)), ((1, 2), (3, 1)), ((2, 2), (2,)), ((3,), (1,))):
        t('broadcast', 1, f'batches {al} and {be} of 2 x 2 matrices, any integer entries', alpha=al, beta=be, I=2, J=2, K=1, D=2, E=2)
    for I, J, K, D, E, q in ((5, 5, 5, 6, 6, None), (1, 1, 1, 40, 40, None), (1, 1, 1, 70, 3, None), (2, 3, 2, 20, 1, 7), (6, 6, 6, 9, 2, None), (1, 20, 1, 2, 2, None), (3, 3, 3, 17, 16, 5), (2, 2, 2, 33, 32, None)):
        t('large', 1, f'{I} x {J} by {J} x {K} with {D} and {E} coefficients, truncation {q}, fixed integers with one arbitrary entry in each', I=I, J=J, K=K, D=D, E=E, q=q)
    for m, I, J, D in ((12, 1, 1, 7), (20, 2, 2, 5), (40, 1, 1, 3), (5, 3, 3, 11)):
        t('many', 1, f'{m} {I} x {J} matrices of up to {D} coefficients, fixed integers with one arbitrary entry', m=m, I=I, J=J, D=D)
    t('refused', 1, 'every shape up to 3 x 3', N=3)
    for I, J, Ds in ((1, 1, (1,)), (1, 1, (3, 2)), (1, 2, (2, 3)), (2, 2, (3, 1, 2)), (2, 1, (3, 3, 3)), (2, 2, (2, 4)), (1, 1, (0, 2))):
        t('pack', 1, f'{I} x {J} matrices with {Ds} coefficients, any integer entries', I=I, J=J, Ds=Ds)
    for I, J, sz in ((1, 1, ((1, 2),)), (1, 2, ((2, 3), (1, 2))), (2, 2, ((1, 2), (2, 3))), (1, 1, ((2, 1), (1, 3), (2, 2))), (2, 2, ((2, 4), (2, 4)))):
        t('concatenate', 1, f'batches (count, coefficients) {sz} of {I} x {J} matrices, any integer entries', I=I, J=J, sizes=sz)
    for pre, I, J, D, L in (((), 1, 1, 2, 2), ((), 2, 2, 2, 4), ((2,), 1, 2, 1, 3), ((2, 1), 1, 1, 2, 3), ((), 1, 1, 0, 2)):
        t('zeropad', 1, f'shape {(*pre, I, J, D)} to {L} coefficients, any integer entries', prefix=pre, I=I, J=J, D=D, L=L)
    for I, J, D, base in ((1, 1, 3, 1), (1, 2, 3, 1), (2, 2, 2, 1), (1, 1, 5, 1), (2, 1, 3, 1), (2, 2, 3, 0)):
        t('convert', base, f'shape {(I, J, D)}, any integer entries', I=I, J=J, D=D)
    for I, J, k, lo, hi, base in ((1, 1, 2, -2, 2, 1), (1, 2, 2, -2, 1, 1), (2, 1, 1, -2, 2, 1), (2, 2, 1, -1, 1, 1), (2, 2, 2, -1, 0, 0)):
        t('laurent', base, f'{I} x {J}, {k} coefficients from any exponent {lo}..{hi}, any integers', I=I, J=J, k=k, lo=lo, hi=hi)
    for I, J in ((1, 1), (2, 3), (3, 2)):
        t('integers', 1, f'{I} x {J}, any integer entries', I=I, J=J)
    for pre, I, J, D, base in (((), 1, 1, 3, 1), ((), 2, 2, 3, 1), ((), 2, 2, 5, 1), ((2,), 1, 1, 3, 1), ((2,), 2, 2, 3, 1), ((3,), 1, 1, 3, 1), ((2, 2), 1, 1, 2, 1), ((1, 2), 2, 1, 3, 1), ((2,), 2, 2, 4, 1), ((3,), 2, 2, 4, 0)):
        t('projectivise', base, f'shape {(*pre, I, J, D)}, any integer entries', prefix=pre, I=I, J=J, D=D)
    for n in (1, 2, 3):
        t('eye', 1, f'{n} x {n}, any integer entries', n=n)
    return add_sequence(T, 'r04', 'trim-()-1-1-3', 'projectivise-()-2-2-3', 'eye-2', 'pack-1-1-(0,2)', 'zeropad-()-1-1-2-2', 'product-1-1-1-3-2-None-None-None', 'eye-3', 'integers-1-1', 'convert-1-1-3')
