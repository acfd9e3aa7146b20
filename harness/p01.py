"""P01: permutations form the symmetric group."""
from peyl import permutations as pm
from peyl.permutations import Permutation, SymmetricGroup
from .common import Task, conc, add_sequence, sequence
from . import ref

OUTSIDE = 'larger n than the stated bounds'


def perm(h, name, n):
    """An arbitrary permutation of n points; for many points, any from a list."""
    if n >= 8:
        return h.choice(name, many(n, name))
    w = tuple(h.fin(f'{name}{i}', 0, n - 1) for i in range(n))
    for i in range(n):
        for j in range(i):
            h.assume(h.not_(h.eq(w[i], w[j])))
    return w


def many(n, name):
    """A list of permutations of many points: the obvious ones, and a fixed one with any two entries exchanged."""
    base = sorted(range(n), key=lambda i: (i * (7 + ord(name[0]) % 5) * 31 + ord(name[0])) % 101)
    out = [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,), tuple(base)]
    for i in range(n):
        for j in range(i):
            x = list(base)
            x[i], x[j] = x[j], x[i]
            out.append(tuple(x))
    return out


def rmul(h, x, y):
    return tuple(x[j] for j in y)


def laws(h, n):
    x, y, z = (perm(h, s, n) for s in 'xyz')
    e = tuple(range(n))
    xy = pm.compose(x, y)
    h.check('right factor first', h.all([h.eq(xy[i], x[y[i]]) for i in range(n)]))
    h.check('associativity', h.eq(pm.compose(xy, z), pm.compose(x, pm.compose(y, z))))
    h.check('identity', h.all([h.eq(pm.compose(x, e), x), h.eq(pm.compose(e, x), x)]) and pm.identity(n) == e)
    h.observe('xy', xy)


def inverses(h, n):
    x, y = perm(h, 'x', n), perm(h, 'y', n)
    e = tuple(range(n))
    ix = pm.inverse(x)
    h.check('inverse', h.all([h.eq(pm.compose(x, ix), e), h.eq(pm.compose(ix, x), e)]))
    h.check('inverse of inverse', h.eq(pm.inverse(ix), x))
    h.check('inverse of product', h.eq(pm.inverse(pm.compose(x, y)), pm.compose(pm.inverse(y), ix)))
    h.check('is identity', h.iff(pm.is_identity(x), h.eq(x, e)))
    h.check('is longest', h.iff(pm.is_longest_element(x), h.eq(x, tuple(reversed(e)))))
    h.observe('ix', ix)


def wide(h, n):
    """Hundreds of points: fixed permutations with any few entries exchanged, against the definitions."""
    x = list(h.choice('x', [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,), tuple((i * 7 + 3) % n for i in range(n)) if n % 7 else tuple(range(n - 1, -1, -1))]))
    pts = sorted({0, 1, n // 2, min(127, n - 1), min(255, n - 2), min(256, n - 1), n - 1})
    i, j = (pts[conc(h.fin(s, 0, len(pts) - 1))] for s in 'ij')
    x[i], x[j] = x[j], x[i]
    y = tuple((5 * k + 2) % n for k in range(n)) if n % 5 else tuple(range(2, n)) + (0, 1)
    x, X, Y = tuple(x), Permutation(tuple(x)), Permutation(y)
    e = tuple(range(n))
    ix = pm.inverse(x)
    h.check('inverse', len(ix) == n and all(ix[x[k]] == k for k in range(n)) and X.inv().word == ix)
    h.check('product', pm.compose(x, y) == tuple(x[k] for k in y) == (X * Y).word)
    h.check('transposition', pm.transposition(n, i, j) == tuple(j if k == i else i if k == j else k for k in range(n)))
    h.check('predicates', pm.is_identity(x) == (x == e) and pm.is_longest_element(x) == (x == e[::-1]) and pm.is_permutation(x))
    G = SymmetricGroup(n)
    h.check('special', G.id().word == e == pm.identity(n) and G.longest_element().word == e[::-1] == pm.longest_element(n))
    if i < j:
        c = G.from_cycle(range(i, j + 1)).word
        h.check('cycle', c == tuple((k + 1 if k < j else i) if i <= k <= j else k for k in range(n)))
        h.check('word', G.from_cox(list(range(i, j))).word == c)
    h.observe('ix', list(ix))


def objects(h, n):
    """The Permutation class agrees with the functions on words."""
    x, y = perm(h, 'x', n), perm(h, 'y', n)
    X, Y = Permutation(x), Permutation(y)
    h.check('product', h.eq((X * Y).word, tuple(x[j] for j in y)))
    h.check('inverse', h.all([h.eq(X.inv().word[x[i]], i) for i in range(n)]))
    h.check('equality', h.iff(X == Y, h.eq(x, y)))
    G = SymmetricGroup(n)
    h.check('identity', h.all([h.eq(X * G.id(), X), h.eq(G.id() * X, X), h.eq(X * X.inv(), G.id())]))
    w0 = G.longest_element()
    h.check('longest element', h.eq((w0 * X).word, tuple(n - 1 - v for v in x)))
    h.check('longest element is an involution', w0 * w0 == G.id())
    h.check('group', X.group() == G)
    h.observe('xy', X * Y)


def transp(h, n):
    i, j = h.fin('i', 0, n - 1), h.fin('j', 0, n - 1)
    t = pm.transposition(n, i, j)
    k = h.fin('k', 0, n - 1)
    h.check('transposition', h.eq(t[k], h.ite(h.eq(k, i), j, h.ite(h.eq(k, j), i, k))))
    G = SymmetricGroup(n)
    gens = G.cox_gens()
    h.check('generators', [g.word for g in gens] == [ref.ptrans(n, a, a + 1) for a in range(n - 1)])
    h.check('reflections', sorted(g.word for g in G.reflections()) == sorted(ref.ptrans(n, a, b) for a in range(n) for b in range(a + 1, n)))
    els = [g.word for g in G.elements()]
    x = perm(h, 'x', n)
    h.check('elements are all permutations', h.eq(sum([h.ite(h.eq(x, w), 1, 0) for w in els]), 1))


def cox(h, n, L):
    """Words in the adjacent transpositions are the products they spell."""
    s = [h.fin(f's{i}', 0, n - 2) for i in range(L)]
    w = list(range(n))
    acc = tuple(w)
    gens = [ref.ptrans(n, a, a + 1) for a in range(n - 1)]
    for a in s:
        g = [[gens[q][i] for q in range(n - 1)][a] for i in range(n)]
        acc = tuple(acc[j] for j in g)
    h.check('product of the word', h.eq(pm.from_cox(n, s), acc))
    h.check('as an element', h.eq(SymmetricGroup(n).from_cox(s).word, acc))
    h.observe('w', acc)


def longcox(h, n, L):
    """A long fixed word with one arbitrary letter."""
    s = [(i * 5 + i * i // 3) % (n - 1) for i in range(L)]
    at = conc(h.fin('at', sorted({0, L // 2, L - 1})))
    s[at] = h.fin('s', 0, n - 2)
    gens = [ref.ptrans(n, a, a + 1) for a in range(n - 1)]
    acc = tuple(range(n))
    for i, a in enumerate(s):
        g = [[gens[q][j] for q in range(n - 1)][a] for j in range(n)] if i == at else gens[a]
        acc = tuple(acc[j] for j in g)
    h.check('product of the word', h.eq(pm.from_cox(n, s), acc))
    h.check('as an element', h.eq(SymmetricGroup(n).from_cox(s).word, acc))


def cycle(h, n, L):
    """A cycle of L distinct points."""
    c = [h.fin(f'c{i}', 0, n - 1) for i in range(L)]
    for i in range(L):
        for j in range(i):
            h.assume(h.not_(h.eq(c[i], c[j])))
    w = SymmetricGroup(n).from_cycle(c).word
    k = h.fin('k', 0, n - 1)
    want = k
    for i in range(L):
        want = h.ite(h.eq(k, c[i]), c[(i + 1) % L], want)
    h.check('cycle', h.eq(w[k], want))
    h.observe('w', w)


def cycle_refuse(h, n, L):
    """Repeated or out-of-range entries are refused."""
    c = [h.fin(f'c{i}', -1, n) for i in range(L)]
    good = h.all([h.all([x >= 0, x < n]) for x in c] + [h.not_(h.eq(c[i], c[j])) for i in range(L) for j in range(i)])
    refused = h.raises(AssertionError, lambda: SymmetricGroup(n).from_cycle(c))
    h.check('accepted exactly when it is a cycle', h.iff(refused, h.not_(good)))


def manycycles(h, n, k):
    """Longer lists of cycles."""
    m = conc(h.fin('m', 1, k))
    cs = [[i % n, (i + 1 + i // n % (n - 1)) % n] for i in range(m)]
    x = [conc(h.fin(f'x{i}', 0, n - 1)) for i in range(3)]
    h.assume(len(set(x)) == 3)
    cs[conc(h.fin('at', 0, 2)) * (m - 1) // 2] = x
    w = SymmetricGroup(n).from_cycles(cs).word
    for v in range(n):
        y = v
        for c in reversed(cs):
            y = c[(c.index(y) + 1) % len(c)] if y in c else y
        h.check('product of the cycles', w[v] == y)


def cycles(h, n, lens):
    """The product of a list of cycles (not necessarily disjoint), rightmost first."""
    cs = []
    for a, L in enumerate(lens):
        c = [h.fin(f'c{a}_{i}', 0, n - 1) for i in range(L)]
        for i in range(L):
            for j in range(i):
                h.assume(h.not_(h.eq(c[i], c[j])))
        cs.append(c)
    w = SymmetricGroup(n).from_cycles(cs).word
    k = h.fin('k', 0, n - 1)
    v = k
    for c in reversed(cs):
        nv = v
        for i in range(len(c)):
            nv = h.ite(h.eq(v, c[i]), c[(i + 1) % len(c)], nv)
        v = nv
    h.check('product of the cycles', h.eq(w[k], v))
    h.observe('w', w)


def mismatch(h, n, m):
    x, y = perm(h, 'x', n), perm(h, 'y', m)
    h.check('composition refused', h.raises(ValueError, lambda: pm.compose(x, y)))
    h.check('product refused', h.raises(ValueError, lambda: Permutation(x) * Permutation(y)))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for n, base in ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 0)):
        t('laws', base, f'all triples of permutations of {n} points', n=n)
    for n, base in ((0, 1), (1, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 0)):
        t('inverses', base, f'all pairs of permutations of {n} points', n=n)
        t('objects', base, f'all pairs of permutations of {n} points', n=n)
    for n in (2, 3, 4, 5):
        t('transp', 1, f'{n} points', n=n)
    for n, L, base in ((3, 5, 1), (4, 4, 1), (5, 6, 1), (6, 9, 1), (7, 14, 0)):
        t('cox', base, f'{n} points, every word of {L} generators', n=n, L=L)
    for n, L in ((3, 60), (5, 40), (9, 45), (12, 70)):
        t('longcox', 1, f'{n} points, a fixed word of {L} generators in which one is replaced by any', n=n, L=L)
    for n, L in ((4, 0), (4, 1), (4, 2), (5, 3), (5, 4), (5, 5), (3, 3)):
        t('cycle', 1, f'{n} points, every cycle of length {L}', n=n, L=L)
    for n, L in ((3, 2), (4, 3), (3, 4)):
        t('cycle_refuse', 1, f'{n} points, every sequence of {L} integers in -1..{n}', n=n, L=L)
    for n, lens in ((4, []), (4, [2, 3]), (4, [3, 0, 2]), (5, [2, 2, 2]), (3, [2, 2, 3, 2]), (3, [2, 2, 2, 2, 2])):
        t('cycles', 1, f'{n} points, all cycles of lengths {lens}', n=n, lens=lens)
    for n, k in ((4, 8), (6, 17), (5, 33)):
        t('manycycles', 1, f'{n} points, up to {k} fixed transpositions with any one replaced by any cycle of length 3', n=n, k=k)
    for n in (33, 65, 129, 257, 300):
        t('wide', 1, f'{n} points, 4 permutations with any two of 7 entries exchanged', n=n)
    t('mismatch', 1, '3 and 4 points', n=3, m=4)
    t('mismatch', 1, '4 and 2 points', n=4, m=2)
    for fn, n, base in (('laws', 9, 1), ('inverses', 9, 1), ('objects', 9, 1), ('laws', 12, 0), ('inverses', 12, 0), ('objects', 12, 1)):
        t(fn, base, f'any from a list of permutations of {n} points: a fixed one with any two entries exchanged', n=n)
    return add_sequence(T, 'p01', 'laws-3', 'objects-3', 'inverses-3', 'transp-3', 'cycle-4-1', 'cox-3-5', 'laws-4', 'objects-4', 'inverses-4')
