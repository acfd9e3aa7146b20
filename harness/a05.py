"""A05: matrices over commutative rings."""
from peyl.matrix import Matrix
from peyl.lpoly import LPoly
from .common import Task, conc, add_sequence, sequence
from .polys import check_lpoly, coeffs, refof, mul as pmul, add as padd

OUTSIDE = 'larger shapes than the stated bounds'
ASSUMPTIONS = ['integers are the unbounded Python integers']


def mat(h, name, r, c):
    d = [[h.int(f'{name}{i}_{j}') for j in range(c)] for i in range(r)]
    return d, Matrix(r, c, tuple(x for row in d for x in row))


def same(h, label, M, want, r, c):
    h.check(label + ': shape', isinstance(M, Matrix) and M.nrows == r and M.ncols == c and len(M.data) == r * c and type(M.data) is tuple)
    h.check(label, h.all([h.eq(M.data[i * c + j], want[i][j]) for i in range(r) for j in range(c)]))


def rmul(a, b, m):
    return [[sum([a[i][k] * b[k][j] for k in range(m)]) for j in range(len(b[0]) if b else 0)] for i in range(len(a))]


def product(h, r, m, c):
    a, A = mat(h, 'a', r, m)
    b, B = mat(h, 'b', m, c)
    want = [[sum([a[i][k] * b[k][j] for k in range(m)]) for j in range(c)] for i in range(r)]
    same(h, 'product', A * B, want, r, c)
    s = h.int('s')
    same(h, 'right scalar', A * s, [[x * s for x in row] for row in a], r, m)
    same(h, 'left scalar', s * A, [[s * x for x in row] for row in a], r, m)
    same(h, 'transpose', A.transpose(), [[a[j][i] for j in range(r)] for i in range(m)], m, r)
    a2, A2 = mat(h, 'c', r, m)
    same(h, 'difference', A - A2, [[x - y for x, y in zip(p, q)] for p, q in zip(a, a2)], r, m)
    h.check('equality', h.iff(A == A2, h.all([h.eq(x, y) for p, q in zip(a, a2) for x, y in zip(p, q)])))
    f = h.int('f')
    same(h, 'map', A.map(lambda x: f * x + 1), [[f * x + 1 for x in row] for row in a], r, m)
    h.observe('P', (A * B).data)


def shapes(h, N):
    """Incompatible shapes are refused; compatible ones are not."""
    r, m, k, c = (conc(h.fin(s, 0, N)) for s in 'rmkc')
    A, B = Matrix(r, m, (1,) * (r * m)), Matrix(k, c, (1,) * (k * c))
    h.check('product', h.raises(ValueError, lambda: A * B) == (m != k))
    h.check('difference', h.raises(ValueError, lambda: A - B) == ((r, m) != (k, c)))
    h.check('power', h.raises(ValueError, lambda: A ** 2) == (r != m))
    h.check('trace', h.raises(ValueError, lambda: A.trace()) == (r != m))
    h.check('square', A.is_square() == (r == m))
    h.check('not a matrix', h.raises(TypeError, lambda: A - 1) and h.raises(TypeError, lambda: A * 'x') and h.raises(TypeError, lambda: 'x' * A))
    h.check('data of the wrong length', h.raises(ValueError, lambda: Matrix(r, m, (1,) * (k * c))) == (r * m != k * c))
    h.check('negative sizes', h.raises(ValueError, lambda: Matrix(-r - 1, m, ())) and h.raises(ValueError, lambda: Matrix(r, -m - 1, ())))
    h.check('data must be a tuple', h.raises(ValueError, lambda: Matrix(r, m, [1] * (r * m))))


def powers(h, n, e):
    a, A = mat(h, 'a', n, n)
    if e < 0:
        h.check('refused', h.raises(NotImplementedError, lambda: A ** e))
        return
    w = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(e):
        w = [[sum([w[i][k] * a[k][j] for k in range(n)]) for j in range(n)] for i in range(n)]
    same(h, 'power', A ** e, w, n, n)
    h.check('trace', h.eq(A.trace(), sum([a[i][i] for i in range(n)])))


def fixed(r, c, s):
    return [[(i * 7 + j * 5 + s) % 11 - 4 for j in range(c)] for i in range(r)]


def large(h, r, m, c):
    """Larger matrices of fixed integers in which one entry of each factor is arbitrary."""
    a, b = fixed(r, m, 1), fixed(m, c, 2)
    i, j, k = (conc(h.fin(s, [0, n // 2, n - 1])) for s, n in (('i', r), ('j', m), ('k', c)))
    a[i][j] = h.int('a')
    b[j][k] = h.int('b')
    A, B = (Matrix.from_rows(x) for x in (a, b))
    same(h, 'product', A * B, rmul(a, b, m), r, c)
    same(h, 'transpose', A.transpose(), [[a[x][y] for x in range(r)] for y in range(m)], m, r)
    same(h, 'row', A.row(i), [a[i]], 1, m)
    same(h, 'column', A.column(j), [[a[x][j]] for x in range(r)], r, 1)
    h.check('entry', h.eq(A[i, j], a[i][j]))
    if r == m:
        h.check('trace', h.eq(A.trace(), sum([a[x][x] for x in range(r)])))


def high(h, n, e):
    """High powers of a matrix of fixed integers with one arbitrary entry."""
    a = [[int(j == i + 1) - int(j == i) for j in range(n)] for i in range(n)]
    i, j = conc(h.fin('i', 0, n - 1)), conc(h.fin('j', 0, n - 1))
    a[i][j] = h.int('a') if i == j == 0 else conc(h.fin('b', [-2, 3]))
    A = Matrix.from_rows(a)
    w = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(e):
        w = rmul(w, a, n)
    same(h, 'power', A ** e, w, n, n)


def access(h, r, c):
    a, A = mat(h, 'a', r, c)
    h.check('rows', h.all([h.eq(x, y) for p, q in zip(A.rows(), a) for x, y in zip(p, q)]) if [len(x) for x in A.rows()] == [c] * r else False)
    if r:
        same(h, 'from_rows', Matrix.from_rows(a), a, r, c)
    i, j = conc(h.fin('i', -r - 2, r + 2)), conc(h.fin('j', -c - 2, c + 2))
    iok, jok = 0 <= i < r, 0 <= j < c
    h.check('entry bounds', h.raises(IndexError, lambda: A[i, j]) == (not (iok and jok)))
    h.check('row bounds', h.raises(IndexError, lambda: A.row(i)) == (not iok))
    h.check('column bounds', h.raises(IndexError, lambda: A.column(j)) == (not jok))
    if iok and jok:
        h.check('entry', h.eq(A[i, j], a[i][j]))
    if iok:
        same(h, 'row', A.row(i), [a[i]], 1, c)
    if jok:
        same(h, 'column', A.column(j), [[a[k][j]] for k in range(r)], r, 1)
    h.check('entries', h.eq(sum(list(A.entries())), sum([x for row in a for x in row])))
    h.check('indices', sorted(A.indices()) == [(x, y) for x in range(r) for y in range(c)])
    h.check('symmetric', h.iff(A.is_symmetric(), h.all([r == c] + [h.eq(a[x][y], a[y][x]) for x in range(r) for y in range(c) if r == c])))
    h.check('integral', A.is_integral())
    h.check('key', h.raises(KeyError, lambda: A[0]))


def special(h, n, m):
    s = h.int('s')
    same(h, 'identity', Matrix.identity(n), [[int(i == j) for j in range(n)] for i in range(n)], n, n)
    same(h, 'scalar', Matrix.scalar(n, s), [[s if i == j else 0 for j in range(n)] for i in range(n)], n, n)
    same(h, 'zero', Matrix.zero(n, m), [[0] * m for _ in range(n)], n, m)
    v = [h.int(f'v{i}') for i in range(n)]
    same(h, 'row vector', Matrix.row_vector(v), [v], 1, n)
    same(h, 'column vector', Matrix.col_vector(v), [[x] for x in v], n, 1)
    if n:
        i = conc(h.fin('i', 0, n - 1))
        same(h, 'coordinate vector', Matrix.col_coord_vector(n, i), [[int(j == i)] for j in range(n)], n, 1)
    a, A = mat(h, 'a', n, n)
    h.check('identity is neutral', h.all([h.eq(Matrix.identity(n) * A, A), h.eq(A * Matrix.identity(n), A)]))


def laurent(h, r, m, c):
    """Entries in the ring of Laurent polynomials."""
    def lm(name, r, c):
        es = [[(conc(h.fin(f'{name}v{i}{j}', -1, 1)), [h.int(f'{name}{i}{j}')]) for j in range(c)] for i in range(r)]
        return es, Matrix(r, c, tuple(LPoly(v, cs) for row in es for v, cs in row))
    a, A = lm('a', r, m)
    b, B = lm('b', m, c)
    P = A * B
    for i in range(r):
        for j in range(c):
            ref = {}
            for k in range(m):
                ref = padd(ref, pmul(refof(a[i][k][1], a[i][k][0]), refof(b[k][j][1], b[k][j][0])))
            check_lpoly(h, f'entry {i} {j}', LPoly.coerce(P[i, j]), 0, ref)
    h.check('not integral', not A.is_integral() if r * m else True)


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for r, m, c, base in ((1, 1, 1, 1), (2, 2, 2, 1), (1, 3, 2, 1), (2, 1, 3, 1), (3, 2, 1, 1), (0, 2, 3, 1), (2, 0, 3, 1), (2, 3, 0, 1), (3, 3, 3, 1), (4, 5, 3, 1), (6, 6, 6, 0)):
        t('product', base, f'{r} x {m} by {m} x {c}, any integer entries', r=r, m=m, c=c)
    t('shapes', 1, 'every shape up to 3 x 3', N=3)
    for n, e, base in ((0, 3, 1), (1, 6, 1), (2, 0, 1), (2, 1, 1), (2, 2, 1), (2, 3, 1), (3, 3, 1), (2, 5, 1), (2, -1, 1), (3, 5, 0), (2, 9, 0)):
        t('powers', base, f'{n} x {n}, exponent {e}, any integer entries', n=n, e=e)
    for r, m, c in ((6, 7, 8), (9, 2, 9), (1, 20, 1), (8, 8, 8), (12, 1, 3), (2, 16, 17), (10, 10, 10)):
        t('large', 1, f'{r} x {m} by {m} x {c}, fixed integers with one arbitrary entry in each', r=r, m=m, c=c)
    for n, e in ((2, 8), (3, 7), (2, 13), (4, 10), (2, 33)):
        t('high', 1, f'{n} x {n}, exponent {e}, fixed integers with one arbitrary entry', n=n, e=e)
    for r, c in ((0, 0), (1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (3, 3), (0, 2), (4, 4)):
        t('access', 1, f'{r} x {c}, any integer entries, positions beyond both ends', r=r, c=c)
    for n, m in ((0, 2), (1, 1), (2, 3), (3, 2)):
        t('special', 1, f'sizes {n} and {m}', n=n, m=m)
    for r, m, c, base in ((1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 2, 1)):
        t('laurent', base, f'{r} x {m} by {m} x {c}, Laurent monomials with any coefficients and exponents -1..1', r=r, m=m, c=c)
    return add_sequence(T, 'a05', 'product-2-2-2', 'powers-2-2', 'special-2-3', 'product-1-1-1', 'powers-2--1', 'product-2-0-3')
