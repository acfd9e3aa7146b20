"""N01: noncrossing partitions round-trip through every representation, and invalid input is refused."""
import itertools
from peyl import tl
from peyl.noncrossing import NPar, catalan
from peyl.permutations import Permutation
from .common import Task, conc, add_sequence, sequence
from . import ref, tlref
from .p03 import matching_def, distinct

OUTSIDE = 'more points than the stated bounds'


def inv_of(n, blocks):
    """The documented involution of 0..2n-1: the right side of each point is joined to the left side of the next point of
    its block (cyclically)."""
    inv = [0] * (2 * n)
    for b in blocks:
        b = sorted(b)
        for k, a in enumerate(b):
            c = b[(k + 1) % len(b)]
            inv[2 * a + 1] = 2 * c
            inv[2 * c] = 2 * a + 1
    return tuple(inv)


class All:
    def __init__(self, h, n):
        self.parts = ref.noncrossing_partitions(n)
        self.invs = [inv_of(n, p) for p in self.parts]
        self.perms = [ref.descending_perm(n, p) for p in self.parts]
        self.cols = [[v[i] for v in self.invs] for i in range(2 * n)]
        self.pcols = [[v[i] for v in self.perms] for i in range(n)]
        # same block?
        self.same = [[[any(i in b and j in b for b in p) for p in self.parts] for j in range(n)] for i in range(n)]
        h.freeze(self)


def any_npar(h, n):
    """An arbitrary noncrossing partition, as (reference tables, index, NPar)."""
    R = All(h, n)
    x = h.fin('p', 0, len(R.parts) - 1)
    return R, x, NPar(n, tuple(R.cols[i][x] for i in range(2 * n)))


def roundtrip(h, n):
    R, x, p = any_npar(h, n)
    h.check('to_permutation', h.all([h.eq(p.to_permutation().word[i], R.pcols[i][x]) for i in range(n)]))
    h.check('from_permutation', h.eq(NPar.from_permutation(Permutation(tuple(R.pcols[i][x] for i in range(n)))), p))
    h.check('permutation round trip', h.eq(NPar.from_permutation(p.to_permutation()), p))
    comps = p.components()
    x = conc(x)
    h.check('components', comps == list(R.parts[x]) and all(type(c) is tuple for c in comps))
    h.check('components round trip', h.eq(NPar.from_components(n, comps), p))
    h.check('singletons may be omitted', h.eq(NPar.from_components(n, [c for c in comps if len(c) > 1]), p))
    h.check('order is irrelevant', h.eq(NPar.from_components(n, [c[::-1] for c in reversed(comps)]), p))
    h.check('edges', sorted(p.edges()) == sorted(e for c in R.parts[x] for e in itertools.combinations(c, 2)))
    h.observe('p', p)


def components(h, n, lens):
    """Arbitrary lists of blocks of the given sizes: accepted exactly when they form a noncrossing partition."""
    cs = [[h.fin(f'c{a}_{i}', -1, n) for i in range(L)] for a, L in enumerate(lens)]
    flat = [(v, a) for a, c in enumerate(cs) for v in c]
    ok = [h.all([v >= 0, v < n]) for v, _ in flat] + [distinct(h, [v for v, _ in flat])]
    cross = []
    for A, B in itertools.permutations(range(len(cs)), 2):
        for a, c in itertools.permutations(cs[A], 2):
            for b, d in itertools.permutations(cs[B], 2):
                cross.append(h.all([a < b, b < c, c < d]))
    want = h.all(ok + [h.not_(h.any(cross))])
    made = []

    def build():
        made.append(NPar.from_components(n, cs))
    refused = h.raises(ValueError, build)
    h.check('refused exactly when invalid', h.iff(refused, h.not_(want)))
    if made and not refused:
        # membership: the permutation sends each element of a block to the next smaller one, cyclically
        w = made[0].to_permutation().word
        k = h.fin('k', 0, n - 1)
        blk = [h.any([h.eq(v, k) for v in c]) for c in cs]
        img = w[k]
        for c, inb in zip(cs, blk):
            below = h.any([v < k for v in c])
            # the image is in the block, and no block element lies strictly between
            h.check('stays in its block', h.implies(inb, h.any([h.eq(img, v) for v in c])))
            h.check('next smaller element', h.implies(h.all([inb, below]), h.all([img < k] + [h.not_(h.all([v > img, v < k])) for v in c])))
            h.check('wraps to the largest', h.implies(h.all([inb, h.not_(below)]), h.all([v <= img for v in c])))
        h.check('fixed outside the blocks', h.implies(h.not_(h.any(blk)), h.eq(img, k)))
        h.observe('w', w)


def permutations(h, n):
    """Exactly the permutations coming from noncrossing partitions are accepted."""
    w = [h.fin(f'x{i}', 0, n - 1) for i in range(n)]
    h.assume(distinct(h, w))
    want = h.any([h.all([h.eq(w[i], e[i]) for i in range(n)]) for e in All(h, n).perms])
    refused = h.raises(ValueError, lambda: NPar.from_permutation(Permutation(tuple(w))))
    h.check('refused exactly when not of the form', h.iff(refused, h.not_(want)))


def enumeration(h, n):
    """The enumeration contains each crossingless matching exactly once, Catalan many in all."""
    w = tuple(h.fin(f'x{i}', 0, max(0, 2 * n - 1)) for i in range(2 * n))
    good = matching_def(h, w)
    ps = list(NPar.all_of_size(n))
    seqs = list(tl.generate_sequences(2 * n))
    for label, L in (('all_of_size', [p.inv for p in ps]), ('generate_sequences', [tuple(s) for s in seqs])):
        h.check(label + ' length', all(len(s) == 2 * n for s in L))
        count = sum([h.ite(h.all([h.eq(a, b) for a, b in zip(s, w)]), 1, 0) for s in L])
        h.check(label, h.eq(count, h.ite(good, 1, 0)))
    h.check('sizes', all(p.n == n for p in ps))
    h.check('Catalan', len(ps) == len(seqs) == catalan(n) == len(ref.noncrossing_partitions(n)))


def large(h, n, k):
    """Some partitions of many points through every representation."""
    ms = tlref.some(2 * n, k)
    s = ms[conc(h.fin('s', 0, len(ms) - 1))]
    p = NPar(n, s)
    blocks, seen = [], set()
    for i in range(n):
        if i not in seen:
            b = [i]
            while s[2 * b[-1] + 1] // 2 != i:
                b.append(s[2 * b[-1] + 1] // 2)
            blocks.append(tuple(b))
            seen.update(b)
    want = tuple(ref.descending_perm(n, blocks))
    h.check('to_permutation', p.to_permutation().word == want)
    h.check('from_permutation', NPar.from_permutation(Permutation(want)) == p)
    h.check('components', sorted(p.components()) == sorted(blocks) and p.components() == sorted(p.components()))
    h.check('from_components', NPar.from_components(n, p.components()) == p)
    h.check('edges', sorted(p.edges()) == sorted(e for c in blocks for e in itertools.combinations(sorted(c), 2)))
    # one more block, or one entry changed
    i = conc(h.fin('i', sorted({0, n // 2, n - 1})))
    w = list(want)
    at = w.index(i)
    other = h.fin('other', 0, n - 1)
    if n > 9:
        other = conc(h.fin('few', sorted({0, 1, n // 3, n // 2 + 1, n - 2, n - 1})))
    moved = [h.ite(h.eq(other, x), w[at], w[x]) for x in range(n)]
    moved[at] = w[0]
    for x in range(1, n):
        moved[at] = h.ite(h.eq(other, x), w[x], moved[at])
    made = []
    refused = h.raises(ValueError, lambda: made.append(NPar.from_permutation(Permutation(tuple(moved)))))
    if made and not refused:
        h.check('accepted ones give the permutation back', h.all([h.eq(a, b) for a, b in zip(made[0].to_permutation().word, moved)]))
    o = conc(other)
    merged, cycles = tuple(conc(x) for x in moved), []
    blks = ref.pcycles(merged)
    fine = not ref.crossing([list(b) for b in blks]) and merged == tuple(ref.descending_perm(n, blks))
    h.check('refused exactly when not of the form', refused == (not fine))


def blocks(h, n):
    """Partitions of many points into large blocks: a block between two others, blocks around blocks, all points but a few."""
    i, j = conc(h.fin('i', sorted({0, 1, n // 3, n // 2}))), conc(h.fin('j', sorted({n // 2 + 1, n - 2, n - 1, n})))
    kind = conc(h.fin('kind', 0, 3))
    inner, outer = list(range(i, j)), [x for x in range(n) if not i <= x < j]
    B = [[inner, outer], [inner] + [[x] for x in outer], [outer] + [[x] for x in inner], [inner[::2]] + [[x] for x in inner[1::2]] + [outer]][kind]
    B = sorted(tuple(b) for b in B if b)
    p = NPar.from_components(n, [b for b in B if len(b) > 1])
    want = tuple(ref.descending_perm(n, B))
    h.check('inv', p.inv == inv_of(n, B) and NPar(n, inv_of(n, B)) == p)
    h.check('components', p.components() == B)
    h.check('edges', sorted(p.edges()) == sorted(e for b in B for e in itertools.combinations(b, 2)))
    h.check('permutation', p.to_permutation().word == want and NPar.from_permutation(Permutation(want)) == p)
    h.check('all blocks', NPar.from_components(n, [b[::-1] for b in reversed(B)]) == p)
    h.check('extremes', (p == NPar.coarsest(n)) == (len(B) == 1) and (p == NPar.finest(n)) == (len(B) == n))


def listing(h, n):
    """Each listed matching is one, the listing has no repetition and Catalan many entries."""
    for label, L in (('all_of_size', [p.inv for p in NPar.all_of_size(n)]), ('generate_sequences', [tuple(s) for s in tl.generate_sequences(2 * n)])):
        want = 1
        for k in range(n):
            want = want * 2 * (2 * k + 1) // (k + 2)
        h.check(label + ': Catalan', len(L) == want == catalan(n))
        cols = [[s[i] for s in L] for i in range(2 * n)]
        x, y = h.fin('x', 0, len(L) - 1), h.fin('y', 0, len(L) - 1)
        h.check(label + ': valid', matching_def(h, [c[x] for c in cols]))
        h.check(label + ': no repetition', h.implies(h.all([h.eq(c[x], c[y]) for c in cols]), h.eq(x, y)))


def extremes(h, n):
    R, x, p = any_npar(h, n)
    h.check('finest', h.iff(h.eq(p, NPar.finest(n)), h.eq(x, R.parts.index(tuple((i,) for i in range(n))))))
    h.check('coarsest', h.iff(h.eq(p, NPar.coarsest(n)), h.eq(x, R.parts.index((tuple(range(n)),)))))
    q = h.fin('q', 0, len(R.parts) - 1)
    Q = NPar(n, tuple(R.cols[i][q] for i in range(2 * n)))
    h.check('equality', h.iff(p == Q, h.eq(x, q)))
    h.check('odd refused', h.raises(ValueError, lambda: list(tl.generate_sequences(2 * n + 1))) and h.raises(ValueError, lambda: list(tl.generate_sequences(-2))))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for n, base in ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 0)):
        t('roundtrip', base, f'every noncrossing partition of {n} points', n=n)
        if n < 6:
            t('extremes', n < 5, f'every two noncrossing partitions of {n} points', n=n)
    for n, lens, base in ((3, [], 1), (3, [2], 1), (3, [1, 1], 1), (3, [3], 1), (4, [2, 2], 1), (4, [0, 3], 1), (5, [2, 3], 1), (5, [1, 2, 2], 1),
                          (5, [4, 1], 1), (6, [2, 2, 2], 0), (6, [3, 3], 0), (7, [3, 2, 2], 0), (6, [2, 4], 0)):
        t('components', base, f'{n} points, every list of blocks of sizes {lens} with entries in -1..{n}', n=n, lens=lens)
    for n, base in ((1, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 0)):
        t('permutations', base, f'every permutation of {n} points', n=n)
    for n, base in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 0)):
        t('enumeration', base, f'every sequence of {2 * n} points', n=n)
    for n in (8, 12, 20, 40, 70):
        t('blocks', 1, f'{n} points in large blocks, 64 choices', n=n)
    for n, base in ((4, 1), (5, 1), (6, 1), (7, 1), (8, 0)):
        t('listing', base, f'any two entries of the lists for {n} points', n=n)
    for n, k in ((8, 8), (9, 6), (12, 6), (17, 4), (33, 2)):
        t('large', 1, f'some partitions of {n} points, and their permutations with any two entries exchanged', n=n, k=k)
    return add_sequence(T, 'n01', 'extremes-2', 'roundtrip-2', 'enumeration-3', 'enumeration-4')
