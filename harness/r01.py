"""R01: the Jones representations on cell modules, and evaluation of words in any representation."""
import itertools

from peyl import jonesrep
from peyl.braid import GNF, DGNF
from peyl.jonesrep import JonesCellRep, RepBase
from peyl.lpoly import LPoly
from peyl.matrix import Matrix
from peyl.noncrossing import NPar
from peyl.permutations import Permutation
from .common import Task, conc, add_sequence, sequence
from . import ref, reps
from .polys import check_lpoly, mul as pmul

OUTSIDE = 'more strands, longer words and larger exponents than the stated bounds; moduli other than the listed ones'
ASSUMPTIONS = ['integers are the unbounded Python integers']


class Given(RepBase):
    """A representation given by its matrices."""
    def __init__(self, n, p, d, gens, invs):
        super().__init__()
        self.n, self.p, self.d, self.gens, self.invs = n, p, d, gens, invs

    def dimension(self):
        return self.d

    def artin_gens_invs(self):
        return self.gens, self.invs


def word(h, n, L, E, name='w'):
    """A word of L letters: any generators, exponents up to E in absolute value."""
    return [(h.fin(f'{name}g{i}', 0, n - 2), h.fin(f'{name}e{i}', -E, E)) for i in range(L)]


def cword(h, n, L, E, name='w'):
    return [(conc(i), conc(e)) for i, e in word(h, n, L, E, name)]


def anyrep(h, n, d, L, E):
    """Evaluating a word multiplies the given matrices in the order of the word, whatever they are."""
    G = [[[h.int(f'g{k}{i}{j}') for j in range(d)] for i in range(d)] for k in range(n - 1)]
    I = [[[h.int(f'i{k}{i}{j}') for j in range(d)] for i in range(d)] for k in range(n - 1)]
    rep = Given(n, 0, d, [Matrix.from_rows(x) for x in G], [Matrix.from_rows(x) for x in I])
    w = cword(h, n, L, E)
    M = rep.evaluate_artin_word(w)
    want = [[int(i == j) for j in range(d)] for i in range(d)]
    for i, e in w:
        for _ in range(abs(e)):
            x = G[i] if e > 0 else I[i]
            want = [[sum([want[a][b] * x[b][c] for b in range(d)]) for c in range(d)] for a in range(d)]
    h.check('shape', (M.nrows, M.ncols) == (d, d))
    h.check('product of the letters', h.all([h.eq(M[a, b], want[a][b]) for a in range(d) for b in range(d)]))
    h.check('identity', h.eq(rep.id(), Matrix.identity(d)))


def modular(h, n, L, p, m):
    """Reduction modulo p of words in one-dimensional representations with any Laurent binomials."""
    cs = [h.fin(f'c{k}', -m, m) for k in range(n - 1)]
    ds = [h.fin(f'd{k}', -m, m) for k in range(n - 1)]
    vs = [conc(h.fin(f'v{k}', -1, 1)) for k in range(n - 1)]
    w = [conc(h.fin(f'w{i}', 0, n - 2)) for i in range(L)]
    rep = Given(n, p, 1, [Matrix.from_rows([[LPoly(v, (c, d))]]) for v, c, d in zip(vs, cs, ds)], [])
    M = rep.evaluate_artin_word([(i, 1) for i in w])
    want = {0: 1}
    for i in w:
        want = pmul(want, {vs[i]: cs[i], vs[i] + 1: ds[i]})
    check_lpoly(h, 'reduced', LPoly.coerce(M[0, 0]), 0, {e: c % p if p else c for e, c in want.items()})


def generators(h, n, r):
    """The generator matrices are the documented ones, modulo each p."""
    p = conc(h.fin('p', [0, 2, 3, 5, 7, 8191]))
    G, I = reps.jones(n, r)
    rep = JonesCellRep(n, r, p) if p else JonesCellRep(n, r)
    gens, invs = rep.artin_gens_invs()
    h.check('how many', len(gens) == len(invs) == n - 1 and rep.dimension() == len(reps.cellbasis(n, r)))
    for i in range(n - 1):
        reps.check_matrix(h, 'generator', gens[i], G[i], p)
        reps.check_matrix(h, 'inverse', invs[i], I[i], p)
    h.check('dimension', rep.id() == Matrix.identity(rep.dimension()))
    cg, ci = jonesrep.cell_matrices(n, r)
    for i in range(n - 1):
        reps.check_matrix(h, 'cell matrices', cg[i], G[i])
        reps.check_matrix(h, 'inverse cell matrices', ci[i], I[i])


def relations(h, n, r):
    """Words related by one relation have the same matrix."""
    p = conc(h.fin('p', [0, 2, 3, 5]))
    rep = JonesCellRep(n, r, p) if p else JonesCellRep(n, r)
    d = rep.dimension()
    i, j = conc(h.fin('i', 0, n - 2)), conc(h.fin('j', 0, n - 2))
    ev = rep.evaluate_artin_word
    one = [[{0: 1} if a == b else {} for b in range(d)] for a in range(d)]
    reps.check_matrix(h, 'inverse', ev([(i, 1), (i, -1)]), one, p)
    reps.check_matrix(h, 'inverse on the left', ev([(i, -1), (i, 1)]), one, p)
    s, t = conc(h.fin('s', [-1, 1])), conc(h.fin('t', [-1, 1]))
    if abs(i - j) == 1:
        h.check('braid relation', ev([(i, s), (j, s), (i, s)]) == ev([(j, s), (i, s), (j, s)]))
        h.check('mixed braid relation', ev([(i, s), (j, t), (i, -s)]) == ev([(j, -s), (i, t), (j, s)]))
    elif i != j:
        h.check('far commutation', ev([(i, s), (j, t)]) == ev([(j, t), (i, s)]))


def words(h, n, r, p, L, E):
    """Evaluation agrees with the reference, and is multiplicative."""
    rep = JonesCellRep(n, r, p) if p else JonesCellRep(n, r)
    G, I = reps.jones(n, r)
    d = rep.dimension()
    w = cword(h, n, L, E)
    reps.check_matrix(h, 'word', rep.evaluate_artin_word(w), reps.mword(G, I, w, d, p), p)


def braids(h, n, r, p, L):
    """All representations of one braid evaluate to the same matrix."""
    rep = JonesCellRep(n, r, p) if p else JonesCellRep(n, r)
    G, I = reps.jones(n, r)
    w = [(conc(h.fin(f'g{i}', 0, n - 2)), conc(h.fin(f'e{i}', [-1, 1]))) for i in range(L)]
    want = reps.mword(G, I, w, rep.dimension(), p)
    a, b = GNF.from_artin_word(n, w), DGNF.from_artin_word(n, w)
    for label, x in (('Garside', a), ('dual', b), ('Garside to dual', a.to_DGNF()), ('dual to Garside', b.to_GNF())):
        reps.check_matrix(h, label, rep.evaluate(x), want, p)


def sorting(w):
    """Adjacent transpositions (of positions) sorting a permutation: a reduced word of it, read backwards."""
    w, out, k = list(w), [], 0
    while k < len(w) - 1:
        if w[k] > w[k + 1]:
            w[k], w[k + 1] = w[k + 1], w[k]
            out.append(k)
            k = 0
        else:
            k += 1
    return out


def longwords(h, n, r, p, E):
    """Long words: a fixed pattern with one arbitrary letter in one of several places."""
    rep = JonesCellRep(n, r, p) if p else JonesCellRep(n, r)
    G, I = reps.jones(n, r)
    L = conc(h.fin('L', [20, 33, 35, 64, 67]))
    w = [((k * k + k // 3) % (n - 1), (1, -1, 1, -1, -1, 1)[k % 6]) for k in range(L)]
    at = conc(h.fin('at', sorted({0, 19 // 2, 19})))
    w[L - 1 - at if conc(h.fin('end', 0, 1)) else at] = (conc(h.fin('g', 0, n - 2)), conc(h.fin('e', [-E, 0, E])))
    reps.check_matrix(h, 'word', rep.evaluate_artin_word(w), reps.mword(G, I, w, rep.dimension(), p), p)


def simples(h, n, r, p):
    """Permutations and noncrossing partitions evaluate to the matrices of their lifts."""
    rep = JonesCellRep(n, r, p) if p else JonesCellRep(n, r)
    G, I = reps.jones(n, r)
    d = rep.dimension()
    S = sorted(itertools.permutations(range(n)))
    w = S[conc(h.fin('w', 0, len(S) - 1))]
    P = Permutation(w)
    # the product of generators w' = s_1 s_2 ... (as functions, rightmost first) acts on positions from the right
    word = [(x, 1) for x in sorting(w)[::-1]]
    reps.check_matrix(h, 'permutation', rep.evaluate(P), reps.mword(G, I, word, d, p), p)
    reps.check_matrix(h, 'lift of a permutation', rep.evaluate(GNF.from_perm(P)), reps.mword(G, I, word, d, p), p)


def partitions(h, n, r, p):
    rep = JonesCellRep(n, r, p) if p else JonesCellRep(n, r)
    G, I = reps.jones(n, r)
    d = rep.dimension()
    parts = ref.noncrossing_partitions(n)
    c = parts[conc(h.fin('c', 0, len(parts) - 1))]
    X = NPar.from_components(n, c)
    # each block b1 < ... < bk contributes a(bk-1, bk) ... : the band generators of neighbours, from the top
    word = []
    for b in sorted(c):
        b = sorted(b)
        for s, t in reversed(list(zip(b, b[1:]))):
            word += band(s, t)
    reps.check_matrix(h, 'partition', rep.evaluate(X), reps.mword(G, I, word, d, p), p)
    reps.check_matrix(h, 'dual lift', rep.evaluate(DGNF.from_npar(X)), reps.mword(G, I, word, d, p), p)


def band(s, t):
    """The documented band generator exchanging strands s < t."""
    up = [(i, 1) for i in range(t - 1, s, -1)]
    return up + [(s, 1)] + [(i, -e) for i, e in reversed(up)]


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for n, d, L, E, base in ((2, 1, 2, 3, 1), (3, 2, 0, 1, 1), (3, 2, 1, 5, 1), (3, 2, 2, 2, 1), (3, 2, 3, 1, 1), (4, 2, 2, 1, 1), (3, 3, 2, 1, 1), (3, 1, 5, 1, 0)):
        t('anyrep', base, f'any integer {d} x {d} matrices for B{n}, words of {L} letters with exponents up to {E}', n=n, d=d, L=L, E=E)
    for n, L, p, m in ((2, 1, 2, 5), (3, 1, 3, 4), (3, 2, 3, 2), (3, 2, 0, 2), (2, 3, 3, 2), (2, 3, 5, 2)):
        t('modular', 1, f'coefficients up to {m} in absolute value, words of {L} letters, modulo {p}', n=n, L=L, p=p, m=m)
    for n in range(2, 8):
        for r in range(n // 2 + 1):
            t('generators', n <= 6, f'all generators of B{n}, p = 0, 2, 3, 5, 7, 8191', n=n, r=r)
    for n in range(2, 7):
        for r in range(n // 2 + 1):
            t('relations', n <= 5, f'all relations between generators of B{n} with signs, p = 0, 2, 3, 5', n=n, r=r)
    for n, r, p, L, E, base in ((2, 1, 0, 2, 3, 1), (3, 1, 0, 2, 2, 1), (3, 1, 3, 3, 1, 1), (3, 0, 2, 2, 2, 1), (4, 1, 0, 2, 1, 1), (4, 2, 5, 2, 1, 1), (5, 2, 0, 1, 2, 1), (4, 1, 2, 3, 1, 0)):
        t('words', base, f'words of {L} letters of B{n} with exponents up to {E}', n=n, r=r, p=p, L=L, E=E)
    for n, r, p, E in ((3, 1, 3, 3), (4, 2, 2, 1), (3, 1, 0, 2)):
        t('longwords', 1, f'words of up to 67 letters of B{n}, one of them arbitrary, with exponent up to {E}', n=n, r=r, p=p, E=E)
    for n, r, p, L, base in ((2, 1, 0, 3, 1), (3, 1, 0, 3, 1), (3, 1, 3, 3, 1), (3, 1, 0, 4, 0), (4, 1, 0, 2, 1), (4, 2, 2, 2, 1), (5, 2, 0, 1, 1), (4, 1, 5, 3, 0)):
        t('braids', base, f'every word of {L} letters of B{n}', n=n, r=r, p=p, L=L)
    for n, r, p, base in ((2, 1, 0, 1), (3, 1, 0, 1), (3, 1, 2, 1), (4, 1, 0, 1), (4, 2, 3, 1), (5, 1, 0, 0), (5, 2, 0, 1)):
        t('simples', base, f'every permutation of {n}', n=n, r=r, p=p)
        t('partitions', base, f'every noncrossing partition of {n}', n=n, r=r, p=p)
    return add_sequence(T, 'r01', 'generators-3-1', 'generators-4-1', 'generators-4-2', 'simples-3-1-2', 'partitions-3-1-0', 'braids-2-1-0-3', 'simples-3-1-0', 'partitions-3-1-2')
