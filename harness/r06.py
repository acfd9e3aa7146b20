"""R06: arithmetic modulo p is exact in the machine integers used."""
import numpy as np

from peyl import braidsearch, polymat
from peyl.braid import GNF, DGNF
from peyl.braidsearch import JonesSummand
from peyl.jonesrep import JonesCellRep
from peyl.matrix import Matrix
from .common import Ctx, Task, conc
from . import mats
from .r01 import Given, cword
from .r03 import exact, nf, rep_of, simple_word, upto, want

OUTSIDE = 'moduli other than the listed ones, larger matrices and longer products than the stated bounds, the unreduced 64-bit type (p = 0)'
ASSUMPTIONS = ['arrays wrap around like the machine integers of their type']

PRIMES = [2, 3, 5, 7, 11, 127, 131, 181, 191, 251, 257, 1021, 4093, 8191]


def residues(h, label, A, p):
    """All entries are reduced, whatever the type."""
    h.check(label, h.all([h.all([x >= 0, x < p]) for x in A.reshape(-1)]))


def mul(h, which, p, d, D, E, kind):
    """Multiplying a packed matrix of residues by one with the largest residues."""
    rep = JonesCellRep(4, 1, p) if which == 'rep' else JonesSummand(4, 1, p)
    dt = np.dtype(kind)
    A = np.zeros((d, d, D), dtype=dt)
    a = [[[h.int(f'a{i}{j}{e}', 0, p - 1) for e in range(D)] for j in range(d)] for i in range(d)]
    a[0][0][0] = a[0][0][D - 1] = 1
    b = [[[p - 1 for e in range(E)] for j in range(d)] for i in range(d)]
    for i in range(d):
        for e in (0, E - 1):
            b[i][0][e] = int(i == 0)
    A, B = mats.array(a, (d, d, D), dt), mats.array(b, (d, d, E), dt)
    P = D + E - 1
    R = (rep.polymat_mul if which == 'rep' else rep.mul)(A, B)
    W = mats.mul(a, b, d, d, d, D, E, P)
    h.check('shape', R.shape == (d, d, P))
    h.check('true residues', h.all([h.eq(R[i, j, e], W[i][j][e] % p) for i in range(d) for j in range(d) for e in range(P)]))
    residues(h, 'reduced', R, p)


def mulbig(h, which, p, d, D):
    """Large matrices full of the largest residues, apart from a few arbitrary ones: the sums exceed 32 bits."""
    rep = JonesCellRep(4, 1, p) if which == 'rep' else JonesSummand(4, 1, p)
    a = [[[p - 1] * D for j in range(d)] for i in range(d)]
    for i, j, e in {(0, 0, 0), (0, d - 1, D - 1), (d - 1, d // 2, D // 2)}:
        a[i][j][e] = h.int(f'a{i}{j}{e}', 1, p - 1)
    A, B = mats.array(a, (d, d, D), np.dtype('int32')), mats.array([[[p - 1] * D] * d] * d, (d, d, D), np.dtype('int32'))
    R = (rep.polymat_mul if which == 'rep' else rep.mul)(A, B)
    P = 2 * D - 1
    h.check('shape', R.shape == (d, d, P))
    for i in {0, d - 1}:
        sums = [sum([a[i][k][e] for k in range(d)]) for e in range(D)]
        W = [sum(sums[max(0, e - D + 1):e + 1]) * (p - 1) % p for e in range(P)]
        h.check('true residues', h.all([h.eq(R[i, j, e], W[e]) for j in range(d) for e in range(P)]))
    residues(h, 'reduced', R, p)


def both(h, which, p, m):
    """Both factors arbitrary (one by one, width m)."""
    rep = JonesCellRep(4, 1, p) if which == 'rep' else JonesSummand(4, 1, p)
    a = [[[h.int(f'a{e}', 1, p - 1) for e in range(m)]]]
    b = [[[h.int('b0', 1, p - 1)]]]
    R = (rep.polymat_mul if which == 'rep' else rep.mul)(mats.array(a, (1, 1, m), np.int32), mats.array(b, (1, 1, 1), np.int32))
    h.check('product', R.shape[:2] == (1, 1) and h.all([h.eq(R[0, 0, e] if e < R.shape[2] else 0, a[0][0][e] * b[0][0][0] % p) for e in range(m)]))


def word(h, p, L, d):
    """Long words in a representation whose matrices have the largest residues."""
    g = [[h.int(f'g{i}{j}', 1, p - 1) for j in range(d)] for i in range(d)]
    big = [[p - 1 if i <= j else 0 for j in range(d)] for i in range(d)]
    rep = Given(3, p, d, [Matrix.from_rows(g), Matrix.from_rows(big)], [Matrix.from_rows(big), Matrix.from_rows(big)])
    w = [(0, 1)] + [(1, conc(h.fin(f'e{i}', [-2, -1, 1, 2]))) for i in range(L)]
    A = rep.polymat_evaluate_artin_word(w)
    M = g
    for _, e in w[1:]:
        for _ in range(abs(e)):
            M = [[sum([M[i][k] * big[k][j] for k in range(d)]) for j in range(d)] for i in range(d)]
    h.check('shape', A.shape == (d, d, 1))
    h.check('true residues', h.all([h.eq(A[i, j, 0], M[i][j] % p) for i in range(d) for j in range(d)]))
    residues(h, 'reduced', A, p)


def images(h, n, r):
    """Everything that is stored or handed out for a representation is reduced."""
    p = conc(h.fin('p', PRIMES))
    rep, summ = rep_of('rep', n, r, p), rep_of('summand', n, r, p)
    for label, A in (('identity', rep.polymat_id()), ('identity', summ.id()),
                     ('generators', rep.polymat_artin_gens_invs()[0]), ('inverses', rep.polymat_artin_gens_invs()[1]),
                     ('generators', summ.artin_gens_invs()[0]), ('inverses', summ.artin_gens_invs()[1])):
        residues(h, label, A, p)


def table(h, n, r):
    p = conc(h.fin('p', PRIMES))
    T = braidsearch.symmetric_table(rep_of('summand', n, r, p))
    xs = sorted(T, key=lambda x: x.word)
    x = xs[conc(h.fin('x', 0, len(xs) - 1))]
    residues(h, 'table', T[x], p)
    upto(h, 'table', T[x], exact(n, r, p, tuple(simple_word(x))))


def braids(h, n, kind, r, k, P):
    """Images of braids, including powers of the Garside element, are reduced and right."""
    p = conc(h.fin('p', PRIMES))
    C = Ctx(h, n, kind)
    b = nf(C, 'x', k, P)
    w = want(b, r, p)
    rep = rep_of('rep', n, r, p)
    A = rep.polymat_evaluate_braid(b)
    residues(h, 'image', A, p)
    upto(h, 'image', A, w)
    if kind == 'gnf':
        summ = rep_of('summand', n, r, p)
        for label, A in (('factors', braidsearch.evaluate_braid_factors(summ, b)),
                         ('batch', braidsearch.evaluate_braids_of_same_length(summ, [b])[0])):
            residues(h, label, A, p)
            upto(h, label, A, w)


def products(h, n, r, p, k):
    """Products of images of braids are the images of the products."""
    C = Ctx(h, n, 'gnf')
    a, b = nf(C, 'a', k, 0), nf(C, 'b', k, 0)
    summ, rep = rep_of('summand', n, r, p), rep_of('rep', n, r, p)
    A = braidsearch.evaluate_braids_of_same_length(summ, [a, b])
    w = want(a, r, p), want(b, r, p)
    from .reps import mmul
    for label, R in (('summand', summ.mul(A[0], A[1])), ('rep', rep.polymat_mul(A[0], A[1]))):
        residues(h, label, R, p)
        upto(h, label, R, mmul(w[0], w[1], p))


def history(h, n, r):
    """One modulus after the other."""
    for p in (conc(h.fin('p1', [0] + PRIMES)), conc(h.fin('p2', [0] + PRIMES))):
        summ, rep = JonesSummand(n, r, p), JonesCellRep(n, r, p)
        T = braidsearch.symmetric_table(summ)
        x = sorted(T, key=lambda x: x.word)[conc(h.fin('x', [1, len(T) - 1]))]
        word = simple_word(x)
        b = GNF.from_artin_word(n, word)
        for label, A in (('table', T[x]), ('word', rep.polymat_evaluate_artin_word(word)), ('braid', rep.polymat_evaluate_braid(b)),
                         ('batch', rep.polymat_evaluate_braids_of_same_length([b])[0]), ('summand', braidsearch.evaluate_braids_of_same_length(summ, [b])[0])):
            if p:
                residues(h, label, A, p)
            upto(h, label, A, exact(n, r, p, tuple(word)))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for which in ('rep', 'summand'):
        for p, d, D, E, kind, base in ((8191, 2, 2, 2, 'int32', 1), (8191, 6, 6, 6, 'int32', 1), (8191, 2, 20, 20, 'int32', 1), (8191, 5, 8, 8, 'int32', 1), (127, 3, 3, 3, 'int32', 1), (2, 3, 4, 4, 'int32', 1), (3, 2, 2, 3, 'int32', 1), (181, 3, 3, 3, 'int32', 1), (257, 2, 4, 4, 'int32', 1), (1021, 4, 4, 4, 'int32', 1), (4093, 3, 3, 3, 'int32', 1), (8179, 3, 12, 12, 'int32', 0)) + (((8191, 3, 4, 4, 'int64', 1),) if which == 'rep' else ()):
            t('mul', base, f'any residues modulo {p} in a {d} x {d} matrix of width {D}, times the largest residues of width {E}', which=which, p=p, d=d, D=D, E=E, kind=kind)
        for p, d, D in ((4999, 14, 10), (4999, 2, 50), (2999, 9, 30), (4093, 3, 46), (1021, 16, 4)):
            t('mulbig', 1, f'{d} x {d} matrices of width {D} with the largest residues modulo {p}, three arbitrary', which=which, p=p, d=d, D=D)
        for p, m in ((2, 3), (3, 2), (5, 2), (7, 1)):
            t('both', 1, f'any residues modulo {p}, width {m}', which=which, p=p, m=m)
    for p, L, d, base in ((8191, 1, 1, 1), (8191, 3, 1, 1), (8191, 2, 2, 1), (3, 3, 2, 1), (2, 2, 1, 1), (8191, 4, 2, 0)):
        t('word', base, f'any {d} x {d} matrix of residues modulo {p}, {L} further letters with exponents up to 2', p=p, L=L, d=d)
    for n in range(2, 7):
        for r in range(n // 2 + 1):
            t('images', n <= 5, f'p in {PRIMES}', n=n, r=r)
            if n <= 4 or (n == 5 and r == 2):
                t('table', n <= 4, f'p in {PRIMES}, all permutations of {n}', n=n, r=r)
    for n, kind, r, k, P, base in ((3, 'gnf', 1, 0, 3, 1), (3, 'gnf', 1, 2, 1, 1), (4, 'gnf', 2, 1, 0, 1), (3, 'dgnf', 1, 0, 4, 1), (4, 'dgnf', 1, 0, 4, 1), (4, 'dgnf', 2, 1, 1, 1), (5, 'dgnf', 2, 0, 5, 1), (4, 'gnf', 1, 1, 1, 0), (3, 'gnf', 1, 4, 0, 0)):
        t('braids', base, f'every normal form of B{n} with {k} factors and power up to {P}, p in {PRIMES}', n=n, kind=kind, r=r, k=k, P=P)
    for n, r, p, k, base in ((3, 1, 8191, 2, 1), (4, 1, 8191, 1, 1), (4, 2, 2, 1, 1), (4, 1, 7, 2, 0)):
        t('products', base, f'every pair of normal forms of B{n} with {k} factors', n=n, r=r, p=p, k=k)
    for n, r, base in ((3, 1, 1), (4, 2, 0)):
        t('history', base, f'two moduli of {[0] + PRIMES}, one after the other', n=n, r=r)
    return T
