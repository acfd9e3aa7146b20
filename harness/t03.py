"""T03: cell modules of the Temperley-Lieb algebras."""
import math

from peyl import braidsearch, jonesrep, tl
from peyl.lpoly import LPoly
from peyl.matrix import Matrix
from peyl.tl import TLCell, TLDiag, TLMor, JonesRep
from .common import Task, conc, add_sequence, sequence
from .polys import add as padd, mul as pmul, check_lpoly
from . import tlref as R
from .t02 import mor, wmul, check_mor, wtrace

OUTSIDE = 'more points, and combinations with more terms than the stated bounds'
ASSUMPTIONS = ['integers are the unbounded Python integers']


def anymatching(h, N):
    """An arbitrary crossingless perfect matching of N points, by its definition."""
    w = tuple(h.fin(f'w{i}', 0, N - 1) for i in range(N))
    for i in range(N):
        h.assume(h.all([h.implies(h.eq(w[i], j), h.eq(w[j], i)) for j in range(N)]))
        h.assume(h.not_(h.eq(w[i], i)))
        for j in range(i + 1, N):
            h.assume(h.not_(h.all([w[i] > j, w[j] > w[i]])))
    return w


def times(h, w, diags):
    return sum([h.ite(h.all([h.eq(a, b) for a, b in zip(w, d.seq)]), 1, 0) for d in diags])


def bases(h, a, b):
    """Every diagram occurs exactly once in the basis; in the tableaux basis exactly if it has b through-strands."""
    w = anymatching(h, a + b)
    B = tl.tl_basis(a, b)
    h.check('types', all(isinstance(d, TLDiag) and (d.top, d.bot) == (a, b) for d in B))
    h.check('once', h.eq(times(h, w, B), 1))
    h.check('as sequences', h.eq(sum([h.ite(h.all([h.eq(x, y) for x, y in zip(w, s)]), 1, 0) for s in tl.generate_sequences(a + b)]), 1))
    h.check('is_crossingless_matching', tl.is_crossingless_matching(w))
    full = h.all([w[i] >= b for i in range(b)])
    if b <= a:
        h.check('tableaux', h.eq(times(h, w, tl.tl_tableaux_basis(a, b)), h.ite(full, 1, 0)))
    h.check('through-strands', h.eq(tl.through_strands(TLDiag(a, b, w)), sum([h.ite(w[i] >= b, 1, 0) for i in range(b)])))


def cells(h, n, r):
    a, b = n, n - 2 * r
    B = list(tl.cell_basis(n, r))
    w = anymatching(h, a + b)
    full = h.all([w[i] >= b for i in range(b)])
    h.check('types', all(isinstance(d, TLDiag) and (d.top, d.bot) == (a, b) for d in B))
    h.check('exactly those with full through-strands, once', h.eq(times(h, w, B), h.ite(full, 1, 0)))
    h.check('sorted', all(x.seq < y.seq for x, y in zip(B, B[1:])))
    h.check('through-strands', all(tl.through_strands(d) == b for d in B))
    C = TLCell(n, r)
    h.check('cell', h.eq(list(C.basis_diagrams()), B))
    d = len(B)
    h.check('dimension', C.dim() == d and tl.cell_dimension(n, r) == d and (n == 0 or jonesrep.JonesCellRep(n, r).dimension() == d))
    if n:
        rep = jonesrep.JonesCellRep(n, r)
        h.check('basis of the representation', h.eq(list(rep.tl_basis()), B))
        S = braidsearch.JonesSummand(n, r)
        h.check('dimension of the summand', S.dimension() == d and S.id().shape == (d, d, 1))
    check_lpoly(h, 'trace scalar', C.trace_scalar(), 0, {e: 1 for e in range(-b, b + 1, 2)})


def noncell(h, N):
    n, r = conc(h.fin('n', -1, N)), conc(h.fin('r', -1, N))
    ok = n >= 0 and r >= 0 and n - 2 * r >= 0
    h.check('dimension refused', h.raises(AssertionError, lambda: tl.cell_dimension(n, r)) == (not ok))
    h.check('cell refused', h.raises(AssertionError, lambda: TLCell(n, r)) == (not ok))
    if n >= 0 and r >= 0 and not ok:
        h.check('no diagrams', list(tl.cell_basis(n, r)) == [])
    if n >= 0:
        J = JonesRep(n)
        h.check('all cells', J.n == n and [(c.n, c.r) for c in J.cells] == [(n, s) for s in range(n + 1) if n - 2 * s >= 0])
    if n >= 0 and r >= 0:
        good = r <= n and (n - r) % 2 == 0
        h.check('tableaux refused', h.raises(AssertionError, lambda: tl.tl_tableaux_basis(n, r)) == (not good))
        h.check('basis refused', h.raises(AssertionError, lambda: tl.tl_basis(n, r)) == ((n + r) % 2 == 1))


def action(h, n, r, want):
    """The reference action of a combination of diagrams on the cell module, as {(i, j): polynomial}."""
    B = [tuple(d.seq) for d in tl.cell_basis(n, r)]
    m = n - 2 * r
    out = {}
    for j, b in enumerate(B):
        for s, p in wmul(n, n, m, want, {b: {0: 1}}).items():
            if R.through(n, m, s) == m:
                out[B.index(s), j] = p
    return len(B), out


def check_matrix(h, label, M, d, want):
    h.check(label + ': shape', isinstance(M, Matrix) and (M.nrows, M.ncols) == (d, d))
    for i in range(d):
        for j in range(d):
            check_lpoly(h, label, M[i, j], 0, want.get((i, j), {}))


def acts(h, n, r, k):
    """The matrices of a combination of diagrams are those of its action on the basis."""
    X, W = mor(h, 'x', n, n, k, (0, 1))
    d, want = action(h, n, r, W)
    check_matrix(h, 'cell action', TLCell(n, r).project_leftmult_matrix(X), d, want)
    check_matrix(h, 'cell matrix', jonesrep.cell_matrix(X, r), d, want)


def represents(h, n, r, k, l):
    """The action is multiplicative."""
    X, _ = mor(h, 'x', n, n, k)
    Y, _ = mor(h, 'y', n, n, l)
    C = TLCell(n, r)
    h.check('multiplicative', h.eq(C.project_leftmult_matrix(X * Y), C.project_leftmult_matrix(X) * C.project_leftmult_matrix(Y)))
    h.check('multiplicative (jonesrep)', h.eq(jonesrep.cell_matrix(X * Y, r), jonesrep.cell_matrix(X, r) * jonesrep.cell_matrix(Y, r)))
    I = jonesrep.cell_matrix(TLMor.id(n), r)
    one = {(i, i): {0: 1} for i in range(C.dim())}
    check_matrix(h, 'identity', I, C.dim(), one)
    check_matrix(h, 'identity acts as the identity', C.project_leftmult_matrix(TLMor.id(n)), C.dim(), one)


def largecells(h, n, r):
    """Larger bases: any two neighbours are in order, and there are as many diagrams as there should be."""
    a, b = n, n - 2 * r
    B = list(tl.cell_basis(n, r))
    C = TLCell(n, r)
    d = math.comb(n, r) - (math.comb(n, r - 1) if r else 0)
    h.check('dimension', len(B) == d == C.dim() == tl.cell_dimension(n, r))
    i = conc(h.fin('i', 0, d - 1))
    x = B[i]
    h.check('type', isinstance(x, TLDiag) and (x.top, x.bot) == (a, b) and len(x.seq) == a + b)
    s = x.seq
    h.check('matching', all(0 <= s[j] < a + b and s[j] != j and s[s[j]] == j for j in range(a + b)))
    h.check('noncrossing', not any(j < k < s[j] < s[k] for j in range(a + b) for k in range(a + b)))
    h.check('full through-strands', sum(1 for j in range(b) if s[j] >= b) == b == tl.through_strands(x))
    h.check('sorted', i + 1 == d or s < B[i + 1].seq)
    h.check('basis of the cell', C.basis_diagrams()[i] == x)
    y = TLMor.from_tldiag(x)
    h.check('already projected', C.project_vector(y) == y)


def vectors(h, n, r, k):
    m = n - 2 * r
    X, W = mor(h, 'x', n, m, k, (-1, 0))
    check_mor(h, 'projection', TLCell(n, r).project_vector(X), n, m, {s: p for s, p in W.items() if R.through(n, m, s) == m})
    if r:
        Y, _ = mor(h, 'y', n, n, 1)
        h.check('refused', h.raises(AssertionError, lambda: TLCell(n, r).project_vector(Y)))


def trace(h, n, k):
    """The Markov trace is the sum of the cell characters weighted by quantum integers."""
    X, W = mor(h, 'x', n, n, k, (-1, 0))
    tot = LPoly(0, ())
    ref = {}
    for C in JonesRep(n).cells:
        tot = tot + C.trace_scalar() * C.project_leftmult_matrix(X).trace()
        d, want = action(h, n, C.r, W)
        m = n - 2 * C.r
        for i in range(d):
            ref = padd(ref, pmul(want.get((i, i), {}), {e: 1 for e in range(-m, m + 1, 2)}))
    check_lpoly(h, 'trace', tot, 0, wtrace(n, W))
    check_lpoly(h, 'reference trace', tot, 0, ref)
    check_lpoly(h, 'trace of the element', X.trace(), 0, ref)


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for a, b, base in ((0, 0, 1), (1, 1, 1), (2, 0, 1), (0, 2, 1), (2, 2, 1), (3, 1, 1), (1, 3, 1), (3, 3, 1), (4, 2, 1), (4, 0, 1), (6, 0, 1), (5, 1, 1), (4, 4, 1), (6, 2, 1), (2, 6, 1), (5, 5, 1), (7, 3, 1), (6, 6, 0), (8, 4, 0)):
        t('bases', base, f'every crossingless matching of {a} + {b} points', a=a, b=b)
    for n in range(8):
        for r in range(n // 2 + 1):
            t('cells', n <= 6, f'every crossingless matching of {n} + {n - 2 * r} points', n=n, r=r)
    for n in range(7, 11):
        for r in range(n // 2 + 1):
            t('largecells', 1, f'any two neighbours of the basis for {n} points and {r} cups', n=n, r=r)
    t('noncell', 1, 'every n and r between -1 and 8', N=8)
    for n in range(1, 6):
        for r in range(n // 2 + 1):
            t('acts', n < 5, f'any multiple of any diagram on {n} points', n=n, r=r, k=1)
    for n, r, k in ((2, 1, 2), (3, 1, 2), (3, 0, 2), (4, 1, 2), (4, 2, 2)):
        t('acts', n < 4, f'any combination of any {k} diagrams on {n} points', n=n, r=r, k=k)
    for n in range(1, 5):
        for r in range(n // 2 + 1):
            t('represents', 1, f'multiples of any two diagrams on {n} points', n=n, r=r, k=1, l=1)
    for n, r in ((5, 1), (5, 2)):
        t('represents', 0, f'multiples of any two diagrams on {n} points', n=n, r=r, k=1, l=1)
    for n, r, k, l, base in ((2, 1, 2, 2, 1), (3, 1, 2, 1, 1), (3, 1, 2, 2, 0)):
        t('represents', base, f'combinations of any {k} and {l} diagrams on {n} points', n=n, r=r, k=k, l=l)
    for n, r, k in ((0, 0, 1), (2, 1, 1), (3, 0, 2), (3, 1, 2), (4, 1, 2), (4, 2, 2), (5, 1, 1), (5, 2, 2)):
        t('vectors', 1, f'{k} terms, any integer coefficients', n=n, r=r, k=k)
    for n, k, base in ((0, 1, 1), (1, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 1), (4, 1, 1), (5, 1, 1), (6, 1, 0), (4, 2, 0)):
        t('trace', base, f'{k} terms on {n} points, any integer coefficients', n=n, k=k)
    return add_sequence(T, 't03', 'bases-3-3', 'cells-3-1', 'cells-4-1', 'acts-1-0-1', 'vectors-0-0-1', 'trace-1-1', 'bases-1-3', 'cells-4-2', 'acts-2-1-1')
