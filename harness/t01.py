"""T01: Temperley-Lieb diagrams form a category with tensor products."""
from peyl import tl
from peyl.tl import TLDiag, TLExtDiag
from .common import Task, conc, add_sequence, sequence
from . import tlref as R

OUTSIDE = 'larger diagrams than the stated bounds'


def diag(h, name, top, bot):
    """An arbitrary diagram: its matching (chosen by the solver)."""
    ms = R.matchings(top + bot)
    return ms[conc(h.fin(name, 0, len(ms) - 1))]


def symdiag(h, name, top, bot):
    """An arbitrary diagram as a tuple of symbolic entries."""
    ms = R.matchings(top + bot)
    k = h.fin(name, 0, len(ms) - 1)
    return k, tuple([m[i] for m in ms][k] for i in range(top + bot))


def compose(h, a, b, c):
    """Stacking agrees with following the strands, loops included; all interfaces agree."""
    kx, sx = symdiag(h, 'x', a, b)
    ky, sy = symdiag(h, 'y', b, c)
    X, Y = TLDiag(a, b, sx), TLDiag(b, c, sy)
    Z, loops = X * Y
    x, y = R.matchings(a + b)[conc(kx)], R.matchings(b + c)[conc(ky)]
    want, wl = R.compose(a, b, c, x, y)
    h.check('diagram', h.eq(Z, TLDiag(a, c, want)) and Z.top == a and Z.bot == c)
    h.check('loops', h.eq(loops, wl))
    seq, l2 = tl.compose(x, y, b)
    h.check('function', h.all([h.eq(tuple(seq), want), h.eq(l2, wl)]))
    m, n = h.int('m', 0), h.int('n', 0)
    E = TLExtDiag(a, b, sx, m) * TLExtDiag(b, c, sy, n)
    h.check('with loop counts', h.all([h.eq(E.seq, want), h.eq(E.bubbles, m + n + wl)]) and (E.top, E.bot) == (a, c))
    h.observe('z', [seq, l2])


def assoc(h, a, b, c, d):
    x, y, z = TLDiag(a, b, diag(h, 'x', a, b)), TLDiag(b, c, diag(h, 'y', b, c)), TLDiag(c, d, diag(h, 'z', c, d))
    xy, l1 = x * y
    xy_z, l2 = xy * z
    yz, l3 = y * z
    x_yz, l4 = x * yz
    h.check('associative', h.all([h.eq(xy_z, x_yz), h.eq(l1 + l2, l3 + l4)]))
    i, j, k = h.int('i', 0), h.int('j', 0), h.int('k', 0)
    X, Y, Z = TLExtDiag(a, b, x.seq, i), TLExtDiag(b, c, y.seq, j), TLExtDiag(c, d, z.seq, k)
    h.check('with loop counts', h.eq((X * Y) * Z, X * (Y * Z)))


def units(h, a, b):
    x = diag(h, 'x', a, b)
    X = TLDiag(a, b, x)
    h.check('identity', TLDiag.id(a).seq == R.ident(a) and TLExtDiag.id(b).seq == R.ident(b))
    l, r = TLDiag.id(a) * X, X * TLDiag.id(b)
    h.check('neutral', h.all([h.eq(l[0], X), h.eq(l[1], 0), h.eq(r[0], X), h.eq(r[1], 0)]))
    m = h.int('m', 0)
    E = TLExtDiag(a, b, x, m)
    h.check('neutral with loops', h.all([h.eq(TLExtDiag.id(a) * E, E), h.eq(E * TLExtDiag.id(b), E)]))
    h.check('tensor with nothing', h.eq(X @ TLDiag.id(0), X) and h.eq(TLDiag.id(0) @ X, X))
    n = h.int('n', 0)
    h.check('adding loops', h.all([h.eq(E.add_bubbles(n).bubbles, m + n), h.eq(E.add_bubbles(n).seq, x)]))
    P, c = E.split_bubbles()
    h.check('splitting loops', h.all([h.eq(c, m), h.eq(P, TLExtDiag(a, b, x, 0)), h.eq(P.add_bubbles(c), E)]))
    h.check('through-strands', tl.through_strands(X) == R.through(a, b, x))
    F = X.flip()
    h.check('flip', F.seq == R.flip(a, b, x) and (F.top, F.bot) == (b, a) and h.eq(F.flip(), X))
    if a == b:
        h.check('closure loops', tl.trace_count(x) == R.closure(a, x))


def flips(h, a, b, c):
    X, Y = TLDiag(a, b, diag(h, 'x', a, b)), TLDiag(b, c, diag(h, 'y', b, c))
    Z, l = X * Y
    W, m = Y.flip() * X.flip()
    h.check('flip reverses stacking', h.all([h.eq(Z.flip(), W), h.eq(l, m)]))


def large(h, a, b, c, k):
    """Some diagrams with many points, with any loop counts."""
    xs, ys = R.some(a + b, k), R.some(b + c, k)
    x, y = xs[conc(h.fin('x', 0, len(xs) - 1))], ys[conc(h.fin('y', 0, len(ys) - 1))]
    want, wl = R.compose(a, b, c, x, y)
    m, n = h.int('m', 0), h.int('n', 0)
    X, Y = TLExtDiag(a, b, x, m), TLExtDiag(b, c, y, n)
    h.check('stacked', h.eq(X * Y, TLExtDiag(a, c, want, m + n + wl)))
    Z, loops = TLDiag(a, b, x) * TLDiag(b, c, y)
    h.check('diagram', Z.seq == want and (Z.top, Z.bot) == (a, c))
    h.check('loops', h.eq(loops, wl))
    F = TLDiag(a, b, x)
    h.check('flip', F.flip().seq == R.flip(a, b, x) and h.eq(F.flip().flip(), F))
    h.check('through-strands', tl.through_strands(TLDiag(a, b, x)) == R.through(a, b, x))
    h.check('tensor', h.eq(X @ Y, TLExtDiag(a + b, b + c, R.tensor(a, b, x, b, c, y), m + n)))
    if a == b:
        h.check('closure loops', tl.trace_count(x) == R.closure(a, x))
        h.check('neutral', h.eq(TLExtDiag.id(a) * X, X) and h.eq(X * TLExtDiag.id(a), X))
        i = conc(h.fin('i', sorted({0, a // 2, a - 2})))
        E = TLExtDiag.e(i, a)
        h.check('generator', E.seq == R.cupcap(i, a))
        w, l = R.compose(a, a, a, E.seq, x)
        h.check('generator times diagram', h.eq(E * X, TLExtDiag(a, a, w, m + l)))


def tensor(h, a, b, c, d):
    x, y = diag(h, 'x', a, b), diag(h, 'y', c, d)
    X, Y = TLDiag(a, b, x), TLDiag(c, d, y)
    Z = X @ Y
    want = R.tensor(a, b, x, c, d, y)
    h.check('tensor', Z.seq == want and (Z.top, Z.bot) == (a + c, b + d))
    m, n = h.int('m', 0), h.int('n', 0)
    E = TLExtDiag(a, b, x, m) @ TLExtDiag(c, d, y, n)
    h.check('with loop counts', h.all([h.eq(E.seq, want), h.eq(E.bubbles, m + n)]) and (E.top, E.bot) == (a + c, b + d))
    h.check('flip of a tensor', h.eq(Z.flip(), X.flip() @ Y.flip()))
    h.observe('z', list(Z.seq))


def tensor_assoc(h, sizes):
    ds = [TLDiag(a, b, diag(h, f'x{i}', a, b)) for i, (a, b) in enumerate(sizes)]
    h.check('tensor associative', h.eq((ds[0] @ ds[1]) @ ds[2], ds[0] @ (ds[1] @ ds[2])))


def interchange(h, a, b, c, d, e, f):
    x, y = TLDiag(a, b, diag(h, 'x', a, b)), TLDiag(b, c, diag(h, 'y', b, c))
    z, w = TLDiag(d, e, diag(h, 'z', d, e)), TLDiag(e, f, diag(h, 'w', e, f))
    lhs, l = (x @ z) * (y @ w)
    p, lp = x * y
    q, lq = z * w
    h.check('interchange', h.all([h.eq(lhs, p @ q), h.eq(l, lp + lq)]))


def mismatch(h, N):
    a, b, c, d = (conc(h.fin(s, 0, N)) for s in 'abcd')
    h.assume((a + b) % 2 == 0 and (c + d) % 2 == 0)
    x, y = diag(h, f'x{a + b}', a, b), diag(h, f'y{c + d}', c, d)
    r = h.raises(ValueError, lambda: TLDiag(a, b, x) * TLDiag(c, d, y))
    s = h.raises(ValueError, lambda: TLExtDiag(a, b, x) * TLExtDiag(c, d, y))
    h.check('refused exactly on a mismatch', r == (b != c) and s == (b != c))


def generators(h, n):
    i = conc(h.fin('i', -2, n))
    if 0 <= i < n - 1:
        e = TLExtDiag.e(i, n)
        h.check('generator', e.seq == R.cupcap(i, n) and (e.top, e.bot, e.bubbles) == (n, n, 0))
        h.check('one loop', h.eq(e * e, e.add_bubbles(1)))
        j = conc(h.fin('j', 0, n - 2))
        f = TLExtDiag.e(j, n)
        if abs(i - j) == 1:
            h.check('neighbours', h.eq(e * f * e, e))
        elif i != j:
            h.check('far', h.eq(e * f, f * e))
    else:
        h.check('refused', h.raises(AssertionError, lambda: TLExtDiag.e(i, n)))


def insertion(h, N, M):
    """Inserting one matching into another at any position."""
    x, y = diag(h, 'x', N, 0), diag(h, 'y', M, 0)
    i = conc(h.fin('i', 0, N))
    want = [None] * (N + M)
    lift = lambda v: v if v < i else v + M
    for a, b in enumerate(x):
        want[lift(a)] = lift(b)
    for a, b in enumerate(y):
        want[a + i] = b + i
    h.check('insert', tuple(tl.insert(x, y, i)) == tuple(want))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for s, base in (((0, 0, 0), 1), ((0, 0, 4), 1), ((4, 0, 0), 1), ((0, 4, 4), 1), ((4, 4, 0), 1), ((1, 1, 3), 1), ((5, 1, 1), 1), ((1, 1, 1), 1), ((2, 2, 2), 1), ((0, 2, 0), 1), ((1, 3, 1), 1), ((2, 4, 2), 1), ((3, 3, 3), 1), ((0, 4, 2), 1), ((3, 5, 1), 1),
                    ((4, 4, 4), 1), ((0, 6, 0), 1), ((1, 5, 3), 1), ((2, 0, 2), 1), ((4, 2, 0), 1), ((0, 8, 0), 1), ((5, 5, 5), 1), ((3, 7, 1), 0), ((2, 6, 4), 0)):
        t('compose', base, 'every two diagrams with %d, %d, %d points (any loop counts)' % s, a=s[0], b=s[1], c=s[2])
    for s, base in (((1, 1, 1, 1), 1), ((2, 2, 2, 2), 1), ((3, 3, 3, 3), 1), ((0, 2, 4, 2), 1), ((1, 3, 3, 1), 1), ((2, 4, 2, 4), 1), ((0, 4, 4, 0), 1), ((4, 4, 4, 4), 0), ((1, 5, 3, 5), 0)):
        t('assoc', base, 'every three diagrams with %d, %d, %d, %d points' % s, a=s[0], b=s[1], c=s[2], d=s[3])
    for s in ((0, 0), (1, 1), (2, 2), (0, 2), (2, 0), (1, 3), (3, 1), (3, 3), (2, 4), (4, 4), (1, 5), (5, 5)):
        t('units', 1, 'every diagram with %d and %d points' % s, a=s[0], b=s[1])
    for s, base in (((2, 2, 2), 1), ((3, 3, 3), 1), ((0, 0, 2), 1), ((2, 0, 4), 1), ((4, 2, 0), 1), ((0, 6, 2), 1), ((1, 3, 5), 1), ((0, 4, 2), 1), ((4, 4, 4), 1)):
        t('flips', base, 'every two diagrams with %d, %d, %d points' % s, a=s[0], b=s[1], c=s[2])
    for s in ((0, 0, 2, 2), (2, 2, 0, 0), (0, 0, 0, 0), (1, 3, 0, 0), (0, 2, 2, 0), (0, 2, 0, 4), (4, 0, 2, 0), (2, 0, 1, 1), (1, 1, 1, 1), (2, 0, 0, 2), (2, 2, 1, 1), (1, 3, 2, 2), (3, 3, 2, 4), (4, 2, 3, 1), (4, 4, 3, 3)):
        t('tensor', 1, 'every two diagrams with (%d, %d) and (%d, %d) points' % s, a=s[0], b=s[1], c=s[2], d=s[3])
    for s in ([[1, 1], [2, 0], [1, 3]], [[2, 2], [2, 2], [2, 2]], [[3, 1], [0, 2], [2, 2]], [[3, 3], [2, 2], [3, 3]]):
        t('tensor_assoc', 1, f'every three diagrams of shapes {s}', sizes=s)
    for s, base in (((1, 1, 1, 2, 2, 2), 1), ((2, 2, 2, 2, 2, 2), 1), ((0, 2, 2, 2, 0, 2), 1), ((1, 3, 1, 2, 2, 0), 1), ((3, 3, 3, 2, 2, 2), 1), ((3, 3, 3, 3, 3, 3), 1)):
        t('interchange', base, 'every four diagrams with %d, %d, %d and %d, %d, %d points' % s, a=s[0], b=s[1], c=s[2], d=s[3], e=s[4], f=s[5])
    for a, b, c, k in ((8, 8, 8, 5), (0, 16, 0, 7), (12, 12, 12, 3), (3, 15, 7, 4), (10, 6, 10, 4), (1, 21, 1, 4), (20, 20, 20, 1), (0, 40, 0, 2)):
        t('large', 1, f'some diagrams with {a}, {b}, {c} points, any loop counts', a=a, b=b, c=c, k=k)
    t('mismatch', 1, 'every two diagrams with up to 2 points on each side', N=2)
    t('mismatch', 1, 'every two diagrams with up to 3 points on each side', N=3)
    for n in (0, 1, 2, 3, 4, 6):
        t('generators', 1, f'every pair of generators on {n} points', n=n)
    for N, M in ((2, 2), (4, 2), (4, 4), (0, 4), (6, 4)):
        t('insertion', 1, f'every matching of {M} points into every matching of {N} points, at every position', N=N, M=M)
    return add_sequence(T, 't01', 'compose-2-2-2', 'units-2-2', 'flips-2-2-2', 'units-1-3', 'insertion-2-2', 'compose-1-3-1', 'tensor-1-3-2-2', 'assoc-1-1-1-1')
