"""P03: the validity tests are exact, and the constructors enforce them."""
from peyl import permutations as pm
from peyl import tl
from peyl.permutations import Permutation
from peyl.noncrossing import NPar
from .common import Task, conc, add_sequence, sequence
from . import ref, tlref

OUTSIDE = 'longer sequences and entries further out of range than the stated bounds'


def seq(h, L, lo, hi):
    return [h.fin(f'x{i}', lo, hi) for i in range(L)]


def distinct(h, w):
    return h.all([h.not_(h.eq(w[i], w[j])) for i in range(len(w)) for j in range(i)])


def inrange(h, w, n):
    return h.all([h.all([x >= 0, x < n]) for x in w])


def is_perm(h, L, lo, hi, kind):
    w = seq(h, L, lo, hi)
    want = h.all([inrange(h, w, L), distinct(h, w)])
    w = w if kind == 'list' else tuple(w)
    h.check('is_permutation', h.iff(pm.is_permutation(w), want))
    if kind == 'tuple':
        refused = h.raises(AssertionError, lambda: Permutation(w))
        h.check('constructor', h.iff(refused, h.not_(want)))


def matching_def(h, w):
    """Fixed-point-free involution of 0..L-1 in which no two arcs cross (entries are in range already)."""
    L = len(w)
    cs = [inrange(h, w, L)]
    for i in range(L):
        cs.append(h.not_(h.eq(w[i], i)))
        for j in range(L):
            cs.append(h.implies(h.eq(w[i], j), h.eq(w[j], i)))
    for a in range(L):
        for b in range(a + 1, L):
            # a < b < w[a] < w[b] is a crossing
            cs.append(h.not_(h.all([w[a] > b, w[b] > w[a]])))
    return h.all(cs)


def matching(h, L, lo, hi):
    w = seq(h, L, lo, hi)
    want = matching_def(h, w)
    h.check('is_crossingless_matching', h.iff(tl.is_crossingless_matching(w), want))


def diagrams(h, L, lo, hi):
    w = tuple(seq(h, L, lo, hi))
    want = matching_def(h, w)
    top = conc(h.fin('top', -1, L + 1))
    bot = L - top
    ok = top >= 0 and bot >= 0
    for name, cls in (('TLDiag', tl.TLDiag), ('TLExtDiag', tl.TLExtDiag)):
        refused = h.raises(AssertionError, lambda: cls(top, bot, w))
        h.check(name, h.iff(refused, h.not_(want) if ok else True))
    h.check('sizes', h.raises(AssertionError, lambda: tl.TLDiag(top, bot + 1, w)) and h.raises(AssertionError, lambda: tl.TLExtDiag(top, bot + 1, w)))
    if L % 2 == 0:
        refused = h.raises((AssertionError, ValueError), lambda: NPar(L // 2, w))
        h.check('NPar', h.iff(refused, h.not_(want)))
        h.check('NPar size', h.raises((AssertionError, ValueError), lambda: NPar(L // 2 + 1, w)))


def constructors(h, w, want):
    """Every class of diagrams refuses exactly the sequences which are no crossingless matchings."""
    w, L = tuple(w), len(w)
    for name, make in (('NPar', lambda: NPar(L // 2, w)), ('TLDiag', lambda: tl.TLDiag(L // 2, L - L // 2, w)), ('TLExtDiag', lambda: tl.TLExtDiag(2, L - 2, w))):
        h.check(name, h.iff(h.raises((AssertionError, ValueError), make), h.not_(want)))


def large(h, L, k):
    """Long sequences in which one entry is any integer in and around the range."""
    part = conc(h.fin('part', 0, 2))
    ms = tlref.some(L, k) if L % 2 == 0 else []
    if part == 0 and ms:
        w = list(ms[conc(h.fin('m', 0, len(ms) - 1))])
        at = conc(h.fin('at', sorted({0, 1, L // 2, L - 1})))
        old = w[at]
        w[at] = h.fin('x', -L - 1, L + 1)
        h.check('is_crossingless_matching', h.iff(tl.is_crossingless_matching(w), h.eq(w[at], old)))
        constructors(h, w, h.eq(w[at], old))
    elif part == 1 and ms:
        v = list(ms[conc(h.fin('n', 0, len(ms) - 1))])
        i = conc(h.fin('i', sorted({0, L // 2 - 1, L - 2})))
        # exchanging the partners of two points keeps an involution but may create crossings
        a, b = v[i], v[i + 1]
        if a != i + 1:
            v[i], v[i + 1], v[a], v[b] = b, a, i + 1, i
        cross = any(x < y < v[x] < v[y] for x in range(L) for y in range(L))
        h.check('crossings', tl.is_crossingless_matching(v) == (not cross))
        constructors(h, v, not cross)
    if part < 2:
        return
    w = [(i * 7 + 3) % L for i in range(L)] if L % 7 else list(range(L))[::-1]
    at = conc(h.fin('pt', sorted({0, 1, L // 2, L - 1})))
    old = w[at]
    w[at] = h.fin('y', -2 * L, 2 * L)
    h.check('is_permutation', h.iff(pm.is_permutation(w), h.eq(w[at], old)))
    h.check('constructor', h.iff(h.raises(AssertionError, lambda: Permutation(tuple(w))), h.not_(h.eq(w[at], old))))


def several(h, L, ats, off):
    """A long sequence of which several entries are arbitrary."""
    w = [(i * 5 + off) % L for i in range(L)] if L % 5 else list(range(L))[::-1]
    old = sorted(w[a] for a in ats)
    new = []
    for a in ats:
        w[a] = h.fin(f'x{a}', 0, L - 1)
        new.append(w[a])
    want = h.all([h.all([h.any([h.eq(x, o) for o in old]) for x in new]), distinct(h, new)])
    h.check('is_permutation', h.iff(pm.is_permutation(w), want))
    h.check('constructor', h.iff(h.raises(AssertionError, lambda: Permutation(tuple(w))), h.not_(want)))


def cycles(h, n):
    """Descending and parallel cycles, on permutations."""
    w = seq(h, n, 0, n - 1)
    h.assume(distinct(h, w))
    # each cycle is descending exactly when it has a single ascent, that is when every x with w[x] > x is the least
    # element of its cycle
    iters = [list(range(n))]
    for k in range(n):
        iters.append([w[v] for v in iters[-1]])
    least = [h.all([iters[k][i] >= i for k in range(n)]) for i in range(n)]
    desc = h.all([h.implies(w[i] > i, least[i]) for i in range(n)])
    h.check('descending', h.iff(pm.is_descending_cycles(w), desc))
    same = [[h.any([h.eq(iters[k][i], j) for k in range(n)]) for j in range(n)] for i in range(n)]
    cross = h.any([h.all([same[a][c], same[b][d], h.not_(same[a][b])])
                   for a in range(n) for b in range(a + 1, n) for c in range(b + 1, n) for d in range(c + 1, n)])
    want = h.all([desc, h.not_(cross)])
    h.check('parallel descending', h.iff(pm.is_parallel_descending_cycles(tuple(w)), want))
    els = [ref.descending_perm(n, p) for p in ref.noncrossing_partitions(n)]
    h.check('agrees with the noncrossing partitions', h.iff(want, h.any([h.all([h.eq(w[i], e[i]) for i in range(n)]) for e in els])))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for L, base in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1)):
        for kind in ('list', 'tuple'):
            t('is_perm', base, f'every sequence of {L} integers in -2..{L + 2}', L=L, lo=-2, hi=L + 2, kind=kind)
    t('is_perm', 1, 'every sequence of 3 integers in -7..13', L=3, lo=-7, hi=13, kind='list')
    for L, base in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (8, 1), (10, 0)):
        t('matching', base, f'every sequence of {L} integers in -{L + 1}..{L + 1}', L=L, lo=-L - 1, hi=L + 1)
    for L, base in ((0, 1), (2, 1), (3, 1), (4, 1), (6, 1)):
        t('diagrams', base, f'every sequence of {L} integers in -1..{L}, every split', L=L, lo=-1, hi=L)
    for n, base in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 0)):
        t('cycles', base, f'every permutation of {n} points', n=n)
    for L, k in ((16, 4), (31, 2), (40, 2), (64, 1)):
        t('large', 1, f'some sequences of length {L} in which one entry is any integer in and around the range', L=L, k=k)
    for L, ats, off in ((8, (0, 2, 3, 5, 6, 7), 1), (9, (1, 2, 4, 8), 0), (17, (0, 8, 9, 16), 3), (70, (2, 33, 68), 0)):
        t('several', 1, f'a sequence of length {L} of which the entries at {ats} are any integers in range', L=L, ats=ats, off=off)
    return add_sequence(T, 'p03', 'matching-2--3-3', 'cycles-3', 'diagrams-0--1-0', 'cycles-2', 'matching-1--2-2')
