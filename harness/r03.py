"""R03: packed evaluation agrees with exact evaluation up to a power of v."""
import functools

import numpy as np

from peyl import braidsearch, polymat
from peyl.braid import GNF, DGNF
from peyl.braidsearch import JonesSummand
from peyl.jonesrep import JonesCellRep, LKBRep
from peyl.lpoly import LPoly
from peyl.matrix import Matrix
from peyl.noncrossing import NPar
from peyl.permutations import Permutation
from .track import Rand
from .common import Ctx, Task, conc
from . import mats, ref, reps
from .polys import mul as pmul
from .r01 import Given, band, cword, sorting

OUTSIDE = 'more strands, longer braids, larger batches and moduli than the stated ones'
ASSUMPTIONS = ['the memo tables of the repository are shared by the paths of one run']


# -------------------------------------------------------------------- reference

def simple_word(x):
    """A word of the positive lift of a permutation or noncrossing partition."""
    if isinstance(x, Permutation):
        return [(i, 1) for i in sorting(x.word)[::-1]]
    word = []
    for b in sorted(sorted(c) for c in x.components()):
        for s, t in reversed(list(zip(b, b[1:]))):
            word += band(s, t)
    return word


def garside_word(cls, n):
    if cls is GNF:
        return [(i, 1) for i in sorting(range(n - 1, -1, -1))]
    return [(i, 1) for i in range(n - 2, -1, -1)]


def braid_word(b):
    D = garside_word(type(b), b.n)
    if b.power < 0:
        D = [(i, -e) for i, e in reversed(D)]
    return D * abs(b.power) + [l for x in b.canonical_factors() for l in simple_word(x)]


@functools.lru_cache(maxsize=None)
def exact(n, r, p, word):
    """The matrix of a word, letter by letter."""
    G, I = reps.jones(n, r)
    if not word:
        return [[dict(x) for x in row] for row in reps.identity(len(reps.cellbasis(n, r)))]
    i, e = word[-1]
    if abs(e) > 1:
        return exact(n, r, p, word[:-1] + ((i, 1 if e > 0 else -1),) * abs(e))
    if e == 0:
        return exact(n, r, p, word[:-1])
    return reps.mmul(exact(n, r, p, word[:-1]), G[i] if e > 0 else I[i], p)


def upto(h, label, A, want, p=0):
    """The packed matrix A is v^k times the concrete matrix `want`, for some k."""
    d = len(want)
    h.check(label + ': shape', len(A.shape) == 3 and A.shape[0] == A.shape[1] == d)
    low = min(e for row in want for x in row for e in x)
    high = max(e for row in want for x in row for e in x)
    got = [k for k in range(A.shape[-1]) if any(A[i, j, k] != 0 for i in range(d) for j in range(d))]
    h.check(label + ': width', len(got) > 0 and got[-1] - got[0] == high - low)
    s = got[0] - low
    ok = all(A[i, j, k] == want[i][j].get(k - s, 0) for i in range(d) for j in range(d) for k in range(A.shape[-1]))
    h.check(label, ok)


@functools.lru_cache(maxsize=None)
def rep_of(kind, n, r, p):
    cls = JonesCellRep if kind == 'rep' else JonesSummand
    return cls(n, r, p) if p else cls(n, r)


def nf(C, name, k, P):
    """A concrete normal form with k factors and power up to P, one for each path."""
    x = C.nf(name, k, power=C.h.fin(name + 'P', -P, P))[0]
    return C.cls(C.n, conc(x.power), tuple(conc(f) for f in x.factors))


def want(b, r, p):
    return exact(b.n, r, p, tuple(braid_word(b)))


# -------------------------------------------------------------------- JonesCellRep

def words(h, n, r, p, L, E):
    rep = rep_of('rep', n, r, p)
    w = cword(h, n, L, E)
    upto(h, 'word', rep.polymat_evaluate_artin_word(w), exact(n, r, p, tuple(w)))


def longwords(h, n, r, p, lengths):
    """Long words of several patterns in which one letter is arbitrary."""
    rep = rep_of('rep', n, r, p)
    L = lengths[conc(h.fin('L', 0, len(lengths) - 1))]
    kind = conc(h.fin('kind', 0, 3))
    w = [(0, 1) if kind == 0 else (i % (n - 1), -1) if kind == 1 else (i % (n - 1), 1 - i % 2 * 2) if kind == 2 else (i * i // 3 % (n - 1), 1 if i % 5 else -1) for i in range(L)]
    w[conc(h.fin('at', 0, 2)) * (L - 1) // 2] = (conc(h.fin('i', 0, n - 2)), conc(h.fin('e', [-2, 0, 1])))
    upto(h, 'word', rep.polymat_evaluate_artin_word(w), exact(n, r, p, tuple(w)))


def generators(h, n, r):
    p = conc(h.fin('p', [0, 2, 3, 5, 8191]))
    for kind in ('rep', 'summand'):
        rep = rep_of(kind, n, r, p)
        d = len(reps.cellbasis(n, r))
        h.check('dimension', rep.dimension() == d)
        G, I = rep.polymat_artin_gens_invs() if kind == 'rep' else rep.artin_gens_invs()
        h.check('how many', G.shape[0] == I.shape[0] == n - 1)
        for i in range(n - 1):
            upto(h, 'generator', G[i], exact(n, r, p, ((i, 1),)))
            upto(h, 'inverse', I[i], exact(n, r, p, ((i, -1),)))
        one = rep.polymat_id() if kind == 'rep' else rep.id()
        h.check('identity', one.shape == (d, d, 1) and all(one[i, j, 0] == (i == j) for i in range(d) for j in range(d)))
        h.check('text', f'B{n}' in repr(rep) and (f'F{p}' in repr(rep)) == (p > 0))


def lkb(h, n, p, L):
    """Packed words of the Lawrence-Krammer-Bigelow matrices."""
    q = LPoly(conc(h.fin('a', -1, 1)), (1,))
    t = LPoly(conc(h.fin('b', -1, 1)), (-1,))
    rep = LKBRep(n, p, q, t)
    w = [(conc(h.fin(f'g{i}', 0, n - 2)), conc(h.fin(f'e{i}', [-1, 1]))) for i in range(L)]
    G, I = rep.artin_gens_invs()
    M = rep.id()
    for i, e in w:
        M = M * (G[i] if e > 0 else I[i])
    d = rep.dimension()
    W = []
    for i in range(d):
        W.append([])
        for j in range(d):
            x = LPoly.coerce(M[i, j])
            W[-1].append(reps.trimmed({x.val + k: c for k, c in enumerate(x.coeffs)}, p))
    upto(h, 'word', rep.polymat_evaluate_artin_word(w), W)
    b = GNF.from_artin_word(n, w)
    upto(h, 'packed braid', rep.polymat_evaluate(b), W)


def single(h, n, kind, r, p, k, P):
    """Every way of evaluating one braid."""
    C = Ctx(h, n, kind)
    b = nf(C, 'x', k, P)
    w = want(b, r, p)
    rep = rep_of('rep', n, r, p)
    upto(h, 'evaluate_braid', rep.polymat_evaluate_braid(b), w)
    upto(h, 'evaluate', rep.polymat_evaluate(b), w)
    if kind == 'gnf':
        rep = rep_of('summand', n, r, p)
        upto(h, 'evaluate_braid_factors', braidsearch.evaluate_braid_factors(rep, b), w)


def batch(h, n, kind, r, p, k, P, m, two=0):
    """A batch of m braids, in order, whatever they are."""
    C = Ctx(h, n, kind)
    bs = [nf(C, f'x{i}', k, P) for i in range(m)]
    ws = [want(b, r, p) for b in bs]
    rep = rep_of('rep', n, r, p)
    A = rep.polymat_evaluate_braids_of_same_length(bs)
    h.check('size of the batch', A.shape[0] == m)
    for i in range(m):
        upto(h, 'batch', A[i], ws[i])
    if kind == 'gnf':
        rep = rep_of('summand', n, r, p)
        A = braidsearch.evaluate_braids_of_same_length(rep, bs)
        h.check('size of the batch', A.shape[0] == m)
        for i in range(m):
            upto(h, 'summand batch', A[i], ws[i])
        As = braidsearch.evaluate_prefixes_of_same_length(rep, bs)
        h.check('number of prefixes', len(As) == k + 1)
        for l, X in enumerate(As):
            h.check('size of the batch', X.shape[0] == m)
            for i, b in enumerate(bs):
                upto(h, 'prefix', X[i], want(b.substring(0, l), r, p))


def mixed(h, n, r, p, lengths, P):
    """Braids of different lengths, in the order given."""
    C = Ctx(h, n, 'gnf')
    bs = [nf(C, f'x{i}', k, P) for i, k in enumerate(lengths)]
    As = braidsearch.evaluate_braids(rep_of('summand', n, r, p), bs)
    h.check('one image for each braid', len(As) == len(bs))
    for A, b in zip(As, bs):
        upto(h, 'mixed', A, want(b, r, p))


def indices(h, n, kind, r, p, k, m):
    """Sequences of indices of simple elements, not necessarily in normal form."""
    cls = GNF if kind == 'gnf' else DGNF
    C = Ctx(h, n, kind)
    seqs = [[conc(C.simple(f's{i}{j}')[1]) for j in range(k)] for i in range(m)]
    rep = rep_of('rep', n, r, p)
    A = rep.polymat_evaluate_braid_integers_of_same_length(cls, seqs)
    h.check('size of the batch', A.shape[0] == m)
    divs = C.T.divs
    for i, s in enumerate(seqs):
        upto(h, 'indices', A[i], exact(n, r, p, tuple(l for f in s for l in simple_word(divs[f]))))


def step(h, which, p, D, m):
    """Multiplying by a packed matrix is the product modulo p, divided by a power of v."""
    n, r, d = 3, 1, 2
    rep = rep_of(which, n, r, p)
    mul = rep.polymat_mul if which == 'rep' else rep.mul
    lo, hi = (0, p - 1) if p else (-m, m)
    a, A = mats.sym(h, 'a', (d, d, D), np.int64, lo, hi)
    b = [[{0: 1, 1: p - 1 if p else -1}, {1: 1}], [{}, {1: p - 1 if p else 3, 2: 1}]]
    B = np.zeros((d, d, 3), dtype=np.int64)
    for i in range(d):
        for j in range(d):
            for e, c in b[i][j].items():
                B[i, j, e] = c
    W = reps.mmul([[{e: a[i][j][e] for e in range(D)} for j in range(d)] for i in range(d)], b, p)
    nonzero = [h.any([h.not_(h.eq(W[i][j].get(e, 0), 0)) for i in range(d) for j in range(d)]) for e in range(D + 2)]
    h.assume(h.any(nonzero))
    R = mul(A, B)
    h.check('shape', len(R.shape) == 3 and R.shape[:2] == (d, d) and R.shape[2] <= D + 2)
    s = 0
    while not conc(h.ite(nonzero[s], 1, 0)):
        s += 1
    h.check('product', h.all([h.eq(R[i, j, e] if e < R.shape[2] else 0, W[i][j].get(e + s, 0)) for i in range(d) for j in range(d) for e in range(D + 2 - s)]))


def anyrep(h, n, kind, d, p, k, m, L):
    """In a representation given by any matrices, the packed images are the products of the letters, in order."""
    lo, hi = 1, (p - 1 if p else 3)
    G = [[[h.fin(f'g{g}{i}{j}', lo, hi) for j in range(d)] for i in range(d)] for g in range(n - 1)]
    I = [[[h.fin(f'i{g}{i}{j}', lo, hi) for j in range(d)] for i in range(d)] for g in range(n - 1)]
    rep = Given(n, p, d, [Matrix.from_rows(x) for x in G], [Matrix.from_rows(x) for x in I])

    def product(word):
        M = [[int(i == j) for j in range(d)] for i in range(d)]
        for i, e in word:
            for _ in range(abs(e)):
                x = (G if e > 0 else I)[i]
                M = [[sum([M[a][b] * x[b][c] for b in range(d)]) for c in range(d)] for a in range(d)]
                M = [[v % p for v in row] for row in M] if p else M
        return M

    def same(label, A, word):
        M = product(word)
        h.check(label + ': shape', A.shape == (d, d, 1))
        h.check(label, h.all([h.eq(A[a, b, 0], M[a][b]) for a in range(d) for b in range(d)]))
    w = cword(h, n, L, 1)
    same('word', rep.polymat_evaluate_artin_word(w), w)
    C = Ctx(h, n, kind)
    bs = [nf(C, f'x{i}', k, 0) for i in range(m)]
    A = rep.polymat_evaluate_braids_of_same_length(bs)
    B = rep.polymat_evaluate_braid_integers_of_same_length(C.cls, [list(b.factors) for b in bs])
    h.check('size of the batch', A.shape[0] == B.shape[0] == m)
    for i, b in enumerate(bs):
        same('braid', A[i], b.artin_word())
        same('indices', B[i], b.artin_word())
    same('one braid', rep.polymat_evaluate_braid(bs[0]), bs[0].artin_word())


def table(h, n, r):
    """The precomputed table of the images of all permutations."""
    p = conc(h.fin('p', [0, 2, 3, 7]))
    T = braidsearch.symmetric_table(rep_of('summand', n, r, p))
    xs = sorted(T, key=lambda x: x.word)
    x = xs[conc(h.fin('x', 0, len(xs) - 1))]
    h.check('one entry for each permutation', len(set(x.word for x in xs)) == len(xs) == ref.garside(n, 'gnf').N)
    upto(h, 'table', T[x], exact(n, r, p, tuple(simple_word(x))))


def gap(w):
    es = [e for row in w for x in row for e in x]
    return max(es) - min(es)


def below(h, n, r, L):
    """The braids with a small rho gap are listed with their images, and no other."""
    p = conc(h.fin('p', [0, 2, 3]))
    rep = rep_of('summand', n, r, p)
    bs = list(GNF.all_of_length(n, L))
    good = [b for b in bs if gap(want(b, r, p)) / 2 < L]
    got, A = braidsearch.all_of_length_below_1(rep, L)
    h.check('the right braids', sorted(b.factors for b in got) == sorted(b.factors for b in good) and A.shape[0] == len(got))
    for i, b in enumerate(got):
        upto(h, 'image', A[i], want(b, r, p))


def frame(h, n, r, p, k, m):
    """The table of statistics of a list of braids."""
    C = Ctx(h, n, 'gnf')
    bs = [nf(C, f'x{i}', k, 0) for i in range(m)]
    A = braidsearch.evaluate_braids_of_same_length(rep_of('summand', n, r, p), bs)
    for images in (A, [A[i] for i in range(m)]):
        df = braidsearch.braids_images_to_dataframe(bs, images)
        h.check('rows', len(df) == m)
        for i, b in enumerate(bs):
            w = want(b, r, p)
            h.check('braid', list(df['braid'])[i] == b)
            upto(h, 'image', list(df['image'])[i], w)
            h.check('length', list(df['length'])[i] == k)
            h.check('terms', list(df['nz_terms'])[i] == sum(len(x) for row in w for x in row))
            h.check('gap', list(df['rhogap'])[i] * 2 == gap(w) == list(df['degmax'])[i] - list(df['valmin'])[i])
            h.check('ratio', list(df['rhogap/length'])[i] == gap(w) / 2 / k)


def history(h, n, k, P, configs):
    """Evaluations in several representations one after the other do not influence each other."""
    i, j = conc(h.fin('i', 0, len(configs) - 1)), conc(h.fin('j', 0, len(configs) - 1))
    a, b = [nf(Ctx(h, n, kind), kind, k, P) for kind in ('gnf', 'dgnf')]
    for r, p in (configs[i], configs[j], configs[i]):
        rep = JonesCellRep(n, r, p)
        for x in (a, b):
            upto(h, 'one braid', rep.polymat_evaluate_braid(x), want(x, r, p))
            upto(h, 'batch', rep.polymat_evaluate_braids_of_same_length([x, x])[1], want(x, r, p))
            upto(h, 'indices', rep.polymat_evaluate_braid_integers_of_same_length(type(x), [x.factors])[0], want(type(x)(n, 0, x.factors), r, p))
        rep = JonesSummand(n, r, p)
        upto(h, 'factors', braidsearch.evaluate_braid_factors(rep, a), want(a, r, p))
        upto(h, 'prefixes', braidsearch.evaluate_prefixes_of_same_length(rep, [a])[k][0], want(a.substring(0, k), r, p))


def sampled(h, n, r, a, b, m):
    """Sampled braids come with their own images, whatever the random source returns."""
    p = conc(h.fin('p', [0, 2, 3]))
    rep = rep_of('summand', n, r, p)
    if a == b:
        bs, A = braidsearch.sample_braids_images(rep, a, m, rand=Rand(h))
    else:
        bs, A = braidsearch.sample_braids_images_upto_length(rep, a, b, m, rand=Rand(h))
    h.check('lengths', [x.garside_length() for x in bs] == [k for k in range(a, b + 1) for _ in range(m)] and A.shape[0] == len(bs))
    for i, x in enumerate(bs):
        h.check('no power of the Garside element', x.n == n and x.power == 0)
        upto(h, 'image', A[i], want(x, r, p))


def lot(h, n, kind, r, p, k, m):
    """A long batch of braids of one length, with one that is arbitrary in an arbitrary place."""
    C = Ctx(h, n, kind)
    x = nf(C, 'x', k, 1 if n == 3 else 0)
    i = conc(h.fin('i', [0, m // 2, m - 1]))
    every = [C.cls(n, d, f.factors) for d in (0, 1, -2) for f in C.cls.all_of_length(n, k)]
    bs = [every[j * 7 % len(every)] for j in range(m)]
    bs[i] = x
    A = JonesCellRep(n, r, p).polymat_evaluate_braids_of_same_length(bs)
    B = JonesCellRep(n, r, p).polymat_evaluate_braid_integers_of_same_length(C.cls, [b.factors for b in bs])
    h.check('size', A.shape[0] == B.shape[0] == m)
    for j in sorted({0, (i - 1) % m, i, (i + 1) % m, m // 3, m - 1}):
        upto(h, 'braid', A[j], want(bs[j], r, p))
        upto(h, 'indices', B[j], want(C.cls(n, 0, bs[j].factors), r, p))
    if kind == 'gnf':
        S = rep_of('summand', n, r, p)
        D = braidsearch.evaluate_braids_of_same_length(S, bs)
        E = braidsearch.evaluate_braids(S, bs + [C.cls(n, 0, x.factors[:1])] + bs)
        F = braidsearch.evaluate_prefixes_of_same_length(S, bs)
        h.check('sizes', D.shape[0] == m and len(E) == 2 * m + 1 and len(F) == k + 1)
        for j in sorted({0, (i - 1) % m, i, (i + 1) % m, m - 1}):
            upto(h, 'older: braid', D[j], want(bs[j], r, p))
            upto(h, 'older: list', E[m + 1 + j], want(bs[j], r, p))
            upto(h, 'older: prefix', F[1][j], want(C.cls(n, bs[j].power, bs[j].factors[:1]), r, p))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for n, r, p, L, E, base in ((2, 1, 0, 2, 2, 1), (3, 1, 0, 2, 2, 1), (3, 1, 2, 3, 1, 1), (4, 1, 3, 2, 1, 1), (4, 2, 0, 2, 1, 1), (4, 0, 2, 1, 1, 1), (5, 2, 3, 1, 1, 1), (4, 1, 0, 3, 1, 0)):
        t('words', base, f'words of {L} letters of B{n} with exponents up to {E}', n=n, r=r, p=p, L=L, E=E)
    for n, r, p, ls in ((3, 1, 0, (9, 20, 33)), (3, 1, 2, (16, 40)), (4, 1, 3, (10, 25)), (4, 2, 0, (24,))):
        t('longwords', 1, f'words of {" or ".join(map(str, ls))} letters of B{n}, one of them arbitrary with exponent -2, 0 or 1', n=n, r=r, p=p, lengths=ls)
    for n in range(2, 7):
        for r in range(n // 2 + 1):
            t('generators', n <= 5, f'generators of B{n}, p = 0, 2, 3, 5, 8191', n=n, r=r)
            if n <= 5 and (n < 5 or r == 1):
                t('table', n <= 4, f'all permutations of {n}, p = 0, 2, 3, 7', n=n, r=r)
    for n, p, L, base in ((3, 0, 2, 1), (3, 3, 2, 1), (4, 0, 1, 1)):
        t('lkb', base, f'words of {L} letters of B{n}; parameters v^a and -v^b with |a|, |b| <= 1', n=n, p=p, L=L)
    for n, kind, r, p, k, P, base in ((3, 'gnf', 1, 0, 0, 3, 1), (3, 'gnf', 1, 0, 1, 3, 1), (3, 'gnf', 1, 2, 3, 2, 1), (4, 'gnf', 1, 3, 1, 2, 1), (4, 'gnf', 2, 0, 1, 1, 1), (4, 'gnf', 1, 5, 2, 0, 1), (3, 'dgnf', 1, 0, 1, 4, 1), (3, 'dgnf', 1, 3, 3, 1, 1), (4, 'dgnf', 1, 0, 1, 4, 1), (4, 'dgnf', 2, 2, 2, 1, 1), (5, 'dgnf', 2, 0, 1, 1, 1), (5, 'gnf', 2, 3, 1, 0, 1), (5, 'gnf', 1, 0, 1, 1, 0), (4, 'dgnf', 1, 0, 3, 0, 0)):
        t('single', base, f'every normal form of B{n} with {k} factors and power up to {P}', n=n, kind=kind, r=r, p=p, k=k, P=P)
    for n, kind, r, p, k, P, m, base in ((3, 'gnf', 1, 0, 1, 1, 2, 1), (3, 'gnf', 1, 2, 2, 0, 2, 1), (3, 'gnf', 1, 3, 0, 2, 2, 1), (3, 'gnf', 1, 3, 1, 0, 3, 1), (4, 'gnf', 2, 3, 1, 0, 2, 1), (3, 'dgnf', 1, 0, 1, 1, 2, 1), (3, 'dgnf', 1, 3, 2, 0, 2, 1), (4, 'dgnf', 1, 2, 1, 0, 2, 1), (3, 'gnf', 1, 0, 2, 1, 2, 0)):
        t('batch', base, f'every batch of {m} normal forms of B{n} with {k} factors and power up to {P}', n=n, kind=kind, r=r, p=p, k=k, P=P, m=m)
    for n, r, p, ks, P, base in ((3, 1, 0, (1, 0, 1), 1, 1), (3, 1, 3, (2, 1, 2), 0, 1), (3, 1, 2, (1, 2), 1, 1), (3, 1, 0, (0, 1, 0, 1), 0, 1), (4, 1, 0, (1, 0, 1), 0, 0)):
        t('mixed', base, f'every list of normal forms of B{n} with {ks} factors and power up to {P}', n=n, r=r, p=p, lengths=ks, P=P)
    for n, kind, r, p, k, m, base in ((3, 'gnf', 1, 0, 2, 2, 1), (3, 'gnf', 1, 3, 0, 2, 1), (3, 'dgnf', 1, 0, 2, 2, 1), (4, 'gnf', 1, 2, 1, 2, 1), (4, 'dgnf', 2, 5, 2, 1, 1), (4, 'gnf', 1, 0, 2, 1, 1), (3, 'gnf', 1, 2, 4, 1, 1), (4, 'dgnf', 1, 3, 1, 2, 1)):
        t('indices', base, f'every {m} sequences of {k} simple elements of B{n}', n=n, kind=kind, r=r, p=p, k=k, m=m)
    for which in ('rep', 'summand'):
        for p, D, m, base in ((2, 2, 0, 1), (3, 1, 0, 1), (0, 1, 3, 1), (5, 1, 0, 1), (3, 2, 0, 0)):
            t('step', base, f'2 x 2 matrices of width {D}, entries below {p}' if p else f'2 x 2 matrices of width {D}, entries up to {m}', which=which, p=p, D=D, m=m)
    for n, kind, d, p, k, m, L, base in ((3, 'gnf', 2, 0, 1, 2, 1, 1), (3, 'dgnf', 2, 0, 1, 2, 1, 1), (3, 'gnf', 1, 3, 2, 2, 1, 1), (3, 'dgnf', 1, 5, 1, 2, 2, 1), (4, 'dgnf', 1, 3, 1, 1, 1, 1), (4, 'gnf', 1, 0, 1, 1, 0, 1), (3, 'gnf', 2, 0, 2, 1, 0, 1)):
        t('anyrep', base, f'any {d} x {d} matrices with entries below {p or 4} for B{n}; {m} normal forms of {k} factors, words of {L} letters', n=n, kind=kind, d=d, p=p, k=k, m=m, L=L)
    for n, r, L, base in ((3, 1, 1, 1), (3, 1, 2, 1), (3, 1, 3, 1), (4, 1, 1, 1), (3, 0, 1, 1), (3, 0, 2, 1), (4, 2, 1, 1)):
        t('below', base, f'all normal forms of B{n} with {L} factors, p = 0, 2, 3', n=n, r=r, L=L)
    for n, r, p, k, m, base in ((3, 1, 0, 1, 2, 1), (3, 1, 3, 2, 1, 1), (4, 1, 2, 1, 1, 1)):
        t('frame', base, f'every list of {m} normal forms of B{n} with {k} factors', n=n, r=r, p=p, k=k, m=m)
    for n, k, P, configs, base in ((3, 1, 0, ((1, 0), (1, 2), (1, 3), (0, 3)), 1), (3, 0, 1, ((1, 0), (1, 2), (0, 0), (1, 7)), 1), (4, 0, 1, ((2, 3), (1, 2), (1, 0)), 1), (2, 0, 1, ((0, 0), (1, 0), (0, 2), (1, 3)), 1), (3, 1, 1, ((1, 0), (1, 2), (1, 3)), 0)):
        T.append(Task(f'history-{n}-{k}-{P}', 'history', dict(n=n, k=k, P=P, configs=configs), f'two normal forms of B{n} with {k} factors in two of the representations {configs}, one after the other', base))
    for n, r, a, b, m, base in ((3, 1, 1, 1, 1, 1), (3, 1, 2, 2, 1, 1), (3, 1, 1, 2, 1, 1), (4, 1, 1, 1, 1, 1), (3, 1, 1, 1, 2, 1)):
        t('sampled', base, f'{m} braids of B{n} of each length {a}..{b}, every outcome of the random source; p = 0, 2, 3', n=n, r=r, a=a, b=b, m=m)
    for n, kind, r, p, k, m, base in ((3, 'gnf', 1, 0, 2, 40, 1), (3, 'gnf', 1, 3, 2, 130, 1), (3, 'dgnf', 1, 2, 2, 260, 1), (4, 'dgnf', 2, 5, 1, 70, 1), (4, 'gnf', 1, 0, 1, 40, 1), (3, 'gnf', 1, 5, 1, 301, 1), (3, 'dgnf', 1, 0, 1, 1027, 1), (4, 'gnf', 1, 2, 2, 70, 0)):
        t('lot', base, f'{m} normal forms of B{n} with {k} factors, of which one is arbitrary', n=n, kind=kind, r=r, p=p, k=k, m=m)
    return T
