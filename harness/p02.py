"""P02: length, descents, reduced words, parity and cycles agree with their definitions."""
from peyl import permutations as pm
from peyl.permutations import Permutation
from .common import Task, conc, add_sequence, sequence
from .p01 import perm
from . import ref

OUTSIDE = 'larger n than the stated bounds'


def inversions(h, x):
    n = len(x)
    return sum([h.ite(x[i] > x[j], 1, 0) for i in range(n) for j in range(i + 1, n)])


def swap(x, i, j):
    x = list(x)
    x[i], x[j] = x[j], x[i]
    return tuple(x)


def statistics(h, n):
    x = perm(h, 'x', n)
    L = inversions(h, x)
    h.check('length', h.all([h.eq(pm.length(x), L), h.eq(Permutation(x).length(), L)]))
    h.check('parity', h.eq(pm.parity(x), L % 2))
    h.observe('L', pm.length(x))


def descents(h, n):
    """Descents are exactly the generators that shorten on the corresponding side; multiplication by s_i changes the length by one."""
    x = perm(h, 'x', n)
    L = pm.length(x)
    R = pm.right_descent_set(x)
    Le = pm.left_descent_set(x)
    X = Permutation(x)
    for i in range(n - 1):
        s = ref.ptrans(n, i, i + 1)
        xs, sx = tuple(x[j] for j in s), tuple([s[v] for v in x])
        lr, ll = inversions(h, xs), inversions(h, sx)
        h.check('right descent', h.iff(i in R, lr < L))
        h.check('right length changes by one', h.any([h.eq(lr, L + 1), h.eq(lr, L - 1)]))
        h.check('left descent', h.iff(i in Le, ll < L))
        h.check('right descent test', h.all([h.iff(pm.is_right_descent(x, i), lr < L), h.iff(X.is_right_descent(i), lr < L)]))
        h.check('left descent test', h.all([h.iff(pm.is_left_descent(x, i), ll < L), h.iff(X.is_left_descent(i), ll < L)]))
    h.check('sets', h.all([h.eq(len(R), sum([h.ite(x[i] > x[i + 1], 1, 0) for i in range(n - 1)])), X.right_descent_set() == R, X.left_descent_set() == Le]))
    h.check('only generators', all(0 <= i < n - 1 for i in R) and all(0 <= i < n - 1 for i in Le))


def descent_range(h, n):
    x = perm(h, 'x', n)
    i = conc(h.fin('i', -2, n + 1))
    bad = not 0 <= i < n - 1
    h.check('right', h.raises(AssertionError, lambda: pm.is_right_descent(x, i)) == bad)
    h.check('left', h.raises(AssertionError, lambda: pm.is_left_descent(x, i)) == bad)


def reduced(h, n):
    """The reduced word rebuilds the permutation, has minimal length, and is lexicographically least among the words that do."""
    x = perm(h, 'x', n)
    w = pm.shortlex(x)
    L = inversions(h, x)
    h.check('minimal length', h.eq(len(w), L))
    acc = tuple(range(n))
    for s in w:
        acc = swap(acc, s, s + 1)
    h.check('rebuilds', h.eq(acc, x))
    h.check('methods', h.eq(Permutation(x).shortlex(), w) and h.eq(Permutation(x).artin_word(), [(s, 1) for s in w]))
    # an arbitrary word of the same length with the same product is not smaller
    u = [h.fin(f'u{len(w)}_{i}', 0, n - 2) for i in range(len(w))]
    gens = [ref.ptrans(n, i, i + 1) for i in range(n - 1)]
    cols = [[g[i] for g in gens] for i in range(n)]
    acc = tuple(range(n))
    for s in u:
        g = [c[s] for c in cols]
        acc = tuple([acc[j] for j in g])
    less, eq = False, True
    for a, b in zip(u, w):
        less = h.any([less, h.all([eq, a < b])])
        eq = h.all([eq, h.eq(a, b)])
    h.check('lexicographically least', h.implies(h.eq(acc, x), h.not_(less)))
    h.observe('w', list(w))


def cycles(h, n):
    x = perm(h, 'x', n)
    cs = pm.disjoint_cycles(x)
    flat = [v for c in cs for v in c]
    h.check('partition', len(flat) == n)
    h.check('every point once', h.all([h.not_(h.eq(flat[i], flat[j])) for i in range(n) for j in range(i)]))
    h.check('traversal', h.all([h.eq(x[c[i]], c[(i + 1) % len(c)]) for c in cs for i in range(len(c))]))
    h.check('lowest first in a cycle', h.all([c[0] <= v for c in cs for v in c]))
    h.check('cycles by lowest element', h.all([a[0] < b[0] for a, b in zip(cs, cs[1:])]))
    ct = pm.cycle_type(x)
    h.check('cycle type', h.eq(tuple(sorted((len(c) for c in cs), reverse=True)), tuple(ct)))
    h.check('methods', h.eq(Permutation(x).disjoint_cycles(), cs) and h.eq(Permutation(x).cycle_type(), ct))
    h.observe('cs', [list(c) for c in cs])


def large(h, n):
    """Many points: a fixed permutation with two entries exchanged."""
    start = conc(h.fin('start', 0, 2))
    x = [list(range(n)), list(range(n))[::-1], [(i * 2) % n if n % 2 else i for i in range(n)]][start]
    i, j = conc(h.fin('i', sorted({0, 1, n // 2, n - 2}))), conc(h.fin('j', sorted({0, 2, n // 3, n - 1})))
    x[i], x[j] = x[j], x[i]
    x = tuple(x)
    L = sum(1 for a in range(n) for b in range(a + 1, n) if x[a] > x[b])
    h.check('length', h.all([h.eq(pm.length(x), L), h.eq(Permutation(x).length(), L)]))
    h.check('parity', h.eq(pm.parity(x), L % 2))
    w = pm.shortlex(x)
    h.check('minimal length', len(w) == L)
    acc = list(range(n))
    for s in w:
        acc[s], acc[s + 1] = acc[s + 1], acc[s]
    h.check('rebuilds', tuple(acc) == x)
    # the least word takes the smallest left descent every time
    y, least = [x.index(v) for v in range(n)], []
    k = 0
    while k < n - 1:
        if y[k] > y[k + 1]:
            y[k], y[k + 1] = y[k + 1], y[k]
            least.append(k)
            k = max(0, k - 1)
        else:
            k += 1
    h.check('least', tuple(w) == tuple(least))
    h.check('descents', pm.right_descent_set(x) == {k for k in range(n - 1) if x[k] > x[k + 1]})
    h.check('left descents', pm.left_descent_set(x) == {k for k in range(n - 1) if x.index(k) > x.index(k + 1)})
    seen, cs = set(), []
    for v in range(n):
        if v not in seen:
            c = [v]
            while x[c[-1]] != v:
                c.append(x[c[-1]])
            seen.update(c)
            cs.append(tuple(c))
    h.check('cycles', [tuple(c) for c in pm.disjoint_cycles(x)] == cs)
    h.check('cycle type', tuple(pm.cycle_type(x)) == tuple(sorted(map(len, cs), reverse=True)))


def longcycles(h, n):
    """Many points in a few long cycles, or in many short ones, the points taken in any of several orders."""
    a = conc(h.fin('a', sorted({0, 1, 9, 10, n // 3, n // 2, n - 2})))
    b = [a, (a + n) // 2, n - 1, n][conc(h.fin('b', 0, 3))]
    step = conc(h.fin('step', [1, 7, n - 1]))
    if n % 7 == 0 and step == 7:
        step = 11
    pts = [(k * step) % n for k in range(n)]
    x = list(range(n))
    for part in (pts[:a], pts[a:b], pts[b:]):
        for k, v in enumerate(part):
            x[v] = part[(k + 1) % len(part)]
    x = tuple(x)
    seen, cs = set(), []
    for v in range(n):
        if v not in seen:
            c = [v]
            while x[c[-1]] != v:
                c.append(x[c[-1]])
            seen.update(c)
            cs.append(tuple(c))
    h.check('cycles', [tuple(c) for c in pm.disjoint_cycles(x)] == cs == [tuple(c) for c in Permutation(x).disjoint_cycles()])
    h.check('cycle type', tuple(pm.cycle_type(x)) == tuple(sorted(map(len, cs), reverse=True)) == tuple(Permutation(x).cycle_type()))
    h.check('parity', pm.parity(x) == sum(len(c) - 1 for c in cs) % 2)
    h.check('descents', pm.right_descent_set(x) == {k for k in range(n - 1) if x[k] > x[k + 1]})


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for n, base in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1)):
        t('statistics', base, f'all permutations of {n} points', n=n)
        if n:
            t('descents', base, f'all permutations of {n} points', n=n)
        if n >= 2:
            t('reduced', base, f'all permutations of {n} points and all words of equal length', n=n)
        t('cycles', base, f'all permutations of {n} points', n=n)
    for n in (1, 3):
        t('descent_range', 1, f'{n} points, positions -2..{n + 1}', n=n)
    for fn, n, base in (('statistics', 9, 1), ('descents', 9, 1), ('cycles', 9, 1), ('statistics', 12, 0), ('descents', 12, 0), ('cycles', 12, 1)):
        t(fn, base, f'any from a list of permutations of {n} points: a fixed one with any two entries exchanged', n=n)
    for n in (20, 33, 70):
        t('large', 1, f'three permutations of {n} points with two entries exchanged', n=n)
    for n in (22, 113, 230):
        t('longcycles', 1, f'{n} points in up to three cycles of any of 7 lengths, taken in 3 orders', n=n)
    return add_sequence(T, 'p02', 'statistics-3', 'descents-3', 'cycles-3', 'reduced-3', 'statistics-2', 'descents-2')
