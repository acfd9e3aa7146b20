"""N02: complements and words of noncrossing partitions."""
from peyl.braid import BraidGroup, DGNF, GNF
from peyl.noncrossing import NPar, bkl_gen_to_artin_word, npar_component_to_artin_word
from peyl.permutations import Permutation
from .common import Ctx, Task, conc, add_sequence, sequence
from . import ref
from .n01 import any_npar, All

OUTSIDE = 'more points than the stated bounds; band generators and words are decided for each concrete partition chosen by the solver'


def complements(h, n):
    R, x, p = any_npar(h, n)
    if n > 5:
        p = NPar(n, R.invs[conc(x)])
        x = conc(x)
    G = ref.garside(n, 'dgnf')
    perm = {i: G.idx[w] for i, w in enumerate(R.perms)}
    lc = [R.perms.index(G.els[G.lcomp[perm[i]]]) for i in range(len(R.perms))]
    rc = [R.perms.index(G.els[G.rcomp[perm[i]]]) for i in range(len(R.perms))]
    L, Rt = p.left_complement(), p.right_complement()
    h.check('left complement', h.all([h.eq(L.inv[i], R.cols[i][lc[x]]) for i in range(2 * n)]))
    h.check('right complement', h.all([h.eq(Rt.inv[i], R.cols[i][rc[x]]) for i in range(2 * n)]))
    h.check('inverse', h.all([h.eq(L.right_complement(), p), h.eq(Rt.left_complement(), p)]))
    d = NPar.coarsest(n).to_permutation()
    h.check('product with the left complement', h.eq(L.to_permutation() * p.to_permutation(), d))
    h.check('product with the right complement', h.eq(p.to_permutation() * Rt.to_permutation(), d))
    LL = L.left_complement()
    h.check('twice is conjugation', h.eq(LL.to_permutation(), d * p.to_permutation() * d.inv()))
    RR = Rt.right_complement()
    h.check('twice on the right', h.eq(RR.to_permutation(), d.inv() * p.to_permutation() * d))
    h.check('valid', L.n == n and Rt.n == n)
    h.observe('L', L)


def braid(h, n):
    """The same statements in the braid group."""
    R, x, p = any_npar(h, n)
    B = BraidGroup(n)
    b, l, r = (B.from_npar(q) for q in (p, p.left_complement(), p.right_complement()))
    delta = DGNF(n, 1, ())
    h.check('left complement times itself', h.eq(l * b, delta))
    h.check('itself times right complement', h.eq(b * r, delta))
    h.check('twice', h.eq(B.from_npar(p.left_complement().left_complement()), delta * b * delta.inv()))
    h.check('DGNF.from_npar', h.eq(DGNF.from_npar(p), b))
    h.observe('b', b)


def denotes(G, pw, seq, want):
    """Is D^pw seq (concrete, left-weighted) the product of the proper simple elements `want` (at most one)?"""
    seq = list(seq)
    while seq and seq[0] == G.D:
        pw, seq = pw + 1, seq[1:]
    while seq and seq[-1] == G.id:
        seq.pop()
    if want == [G.D]:
        return (pw, seq) == (1, [])
    return (pw, seq) == (0, [w for w in want if w != G.id])


def words(h, n):
    """The word of a partition denotes its lift (decided in the reference dual Garside structure)."""
    c = Ctx(h, n, 'dgnf')
    G = c.G
    R, x, p = any_npar(h, n)
    x = conc(x)
    word = [(conc(i), conc(e)) for i, e in p.artin_word()]
    h.check('letters', all(0 <= i < n - 1 and e in (1, -1) for i, e in word))
    pw, seq = c.mulseq(c.refword(word))
    h.check('word denotes the lift', denotes(G, pw, seq, [G.idx[R.perms[x]]]))
    c.check_same('word to normal form', DGNF.from_artin_word(n, word), pw, seq)


def component(h, n, L):
    """The word of a single component, given in any order."""
    c = Ctx(h, n, 'dgnf')
    G = c.G
    v = [conc(h.fin(f'v{i}', 0, n - 1)) for i in range(L)]
    if len(set(v)) < L:
        h.check('duplicates refused', h.raises(AssertionError, lambda: npar_component_to_artin_word(v)))
        return
    word = list(npar_component_to_artin_word(v))
    pw, seq = c.mulseq(c.refword(word))
    h.check('component word', denotes(G, pw, seq, [G.idx[ref.descending_perm(n, [v])]]))
    h.check('set', list(npar_component_to_artin_word(set(v))) == word)


def band(h, n):
    """The word of a band generator, in either order of its indices."""
    c = Ctx(h, n, 'dgnf')
    G = c.G
    s, t = conc(h.fin('s', 0, n - 1)), conc(h.fin('t', 0, n - 1))
    word = list(bkl_gen_to_artin_word(s, t))
    pw, seq = c.mulseq(c.refword(word))
    want = [] if s == t else [G.idx[ref.ptrans(n, s, t)]]
    h.check('band generator word', denotes(G, pw, seq, want))
    h.check('empty on the diagonal', (word == []) == (s == t))
    c.check_same('band generator', DGNF.bkl_gens(n)[(s, t)], 0, want)
    h.check('symmetric', list(bkl_gen_to_artin_word(t, s)) == word)


def pairs(h, n):
    """Two partitions whose braids are composable: the lifts multiply in the order of the permutations."""
    c = Ctx(h, n, 'dgnf')
    G = c.G
    R, x, p = any_npar(h, n)
    q = h.fin('q', 0, len(R.parts) - 1)
    Q = NPar(n, tuple(R.cols[i][q] for i in range(2 * n)))
    perm = [G.idx[w] for w in R.perms]
    pw, seq = c.mulseq([(0, [perm[x]]), (0, [perm[q]])])
    c.check_same('product', DGNF.from_npar(p) * DGNF.from_npar(Q), pw, seq)


def action(n, word):
    """The automorphism of the free group on n letters given by a word (Artin's faithful action)."""
    def reduce(w):
        out = []
        for x in w:
            if out and out[-1] == -x:
                out.pop()
            else:
                out.append(x)
        return tuple(out)
    image = [(i + 1,) for i in range(n)]
    for i, e in word:
        a, b = image[i], image[i + 1]
        inv = lambda w: tuple(-x for x in reversed(w))
        if e > 0:
            image[i], image[i + 1] = reduce(a + b + inv(a)), a
        else:
            image[i], image[i + 1] = b, reduce(inv(b) + a + b)
    return image


def band_word(s, t):
    up = [(i, 1) for i in range(t - 1, s, -1)]
    return up + [(s, 1)] + [(i, -e) for i, e in reversed(up)]


def letters(h, n, word):
    word = [(conc(i), conc(e)) for i, e in word]
    h.check('letters', all(0 <= i < n - 1 and e in (1, -1) for i, e in word))
    return word


def wide_band(h, n):
    """Words of band generators on many strands, compared in the automorphisms of the free group."""
    s, t = conc(h.fin('s', 0, n - 1)), conc(h.fin('t', 0, n - 1))
    word = letters(h, n, bkl_gen_to_artin_word(s, t))
    h.check('band generator word', action(n, word) == action(n, band_word(min(s, t), max(s, t)) if s != t else []))


def wide_component(h, n):
    """Words of components and of partitions on many strands (one block, or two nested or neighbouring blocks)."""
    block = [conc(h.fin(f'in{i}', 0, 2)) for i in range(n)]
    blocks = [[i for i in range(n) if block[i] == k] for k in (1, 2)]
    def lift(b):
        return [l for x, y in reversed(list(zip(b, b[1:]))) for l in band_word(x, y)]
    for b in blocks:
        h.check('component', action(n, letters(h, n, npar_component_to_artin_word(b))) == action(n, lift(b)))
    if not ref.crossing(blocks):
        p = NPar.from_components(n, [b for b in blocks if b])
        h.check('partition', action(n, letters(h, n, p.artin_word())) == action(n, lift(blocks[0]) + lift(blocks[1])))


def big_component(h, n):
    """Large blocks: an interval without some inner points, the points between two of which form another block."""
    lo, hi = conc(h.fin('lo', sorted({0, 1, n // 4}))), conc(h.fin('hi', sorted({n // 2, n - 2, n - 1})))
    kind = conc(h.fin('kind', 0, 3))
    u = conc(h.fin('u', sorted({lo + 1 for lo in (0, 1, n // 4)} | {n // 2 - 2})))
    inside = list(range(lo, hi + 1))
    if kind == 1:
        inside = [i for i in inside if i != u]
    elif kind == 2:
        inside = [i for i in inside if not u <= i <= u + 2]
    elif kind == 3:
        inside = inside[::2]
    h.assume(len(inside) > 1)
    other = [i for i in (u, u + 1, u + 2) if i not in inside] if kind == 2 else []
    blocks = [b for b in (inside, other) if len(b) > 1]
    if blocks[1:] and (u <= lo or u + 2 >= hi):
        blocks.pop()
    def lift(b):
        return [l for x, y in reversed(list(zip(b, b[1:]))) for l in band_word(x, y)]
    for b in blocks:
        h.check('component', action(n, letters(h, n, npar_component_to_artin_word(b[::-1]))) == action(n, lift(b)))
    p = NPar.from_components(n, blocks)
    h.check('partition', action(n, letters(h, n, p.artin_word())) == action(n, [l for b in blocks for l in lift(b)]))
    L, R = p.left_complement(), p.right_complement()
    h.check('complements invert each other', L.right_complement() == p and R.left_complement() == p)
    delta = action(n, lift(list(range(n))))
    w = [letters(h, n, q.artin_word()) for q in (L, p, R)]
    h.check('left complement', action(n, w[0] + w[1]) == delta)
    h.check('right complement', action(n, w[1] + w[2]) == delta)


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for n, base in ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 0)):
        if n < 7:
            t('braid', base if n > 1 else 0, f'every noncrossing partition of {n} points', n=n) if n > 1 else None
        if n < 8:
            t('complements', base, f'every noncrossing partition of {n} points', n=n)
    for n, base in ((2, 1), (3, 1), (4, 1), (5, 1), (6, 0)):
        t('words', base, f'every noncrossing partition of {n} points', n=n)
        t('band', base, f'every two points of {n}', n=n)
    for n, L, base in ((4, 0, 1), (4, 1, 1), (4, 2, 1), (4, 3, 1), (5, 3, 1), (5, 4, 1), (5, 5, 0)):
        t('component', base, f'every {L} of {n} points in any order', n=n, L=L)
    for n, base in ((7, 1), (10, 1)):
        t('wide_band', base, f'every two points of {n}', n=n)
    for n, base in ((6, 1), (7, 0)):
        t('wide_component', base, f'every two disjoint subsets of {n} points', n=n)
    for n, base in ((9, 1), (13, 1), (24, 1), (40, 0)):
        t('big_component', base, f'some partitions of {n} points with a block of up to all of them', n=n)
    for n, base in ((3, 1), (4, 1), (5, 1)):
        t('pairs', base, f'every two noncrossing partitions of {n} points', n=n)
    return add_sequence(T, 'n02', 'braid-3', 'complements-3', 'words-3', 'band-2', 'component-4-1', 'words-2')
