"""R02: the Lawrence-Krammer-Bigelow matrices represent the braid group."""
from peyl.braid import GNF, DGNF
from peyl.jonesrep import LKBRep
from peyl.lpoly import LPoly
from peyl.matrix import Matrix
from .common import Task, conc
from .r01 import cword

OUTSIDE = 'more strands, larger exponents of the parameters and longer words than the stated bounds; moduli other than the listed ones'
ASSUMPTIONS = ['integers are the unbounded Python integers']


def unit(h, name, m, sym=True):
    """A unit of the ring: a sign times a power of v."""
    s = h.fin(name + 's', [-1, 1])
    return LPoly(conc(h.fin(name + 'e', -m, m)), (s if sym else conc(s),))


def same(h, label, A, B, p):
    """Equal matrices of Laurent polynomials, modulo p."""
    h.check(label + ': shape', isinstance(A, Matrix) and (A.nrows, A.ncols) == (B.nrows, B.ncols))
    ok = []
    for x, y in zip(A.data, B.data):
        d = LPoly.coerce(x) - LPoly.coerce(y)
        ok += [h.eq(c % p if p else c, 0) for c in d.coeffs]
    h.check(label, h.all(ok))


def gens(h, n, p, m):
    """The listed matrices are mutually inverse and satisfy the relations."""
    rep = LKBRep(n, p, unit(h, 'q', m), unit(h, 't', m))
    G, I = rep.artin_gens_invs()
    d = n * (n - 1) // 2
    h.check('how many', len(G) == len(I) == n - 1 and rep.dimension() == d)
    one = Matrix.identity(d)
    i = conc(h.fin('i', 0, n - 2))
    same(h, 'inverse', G[i] * I[i], one, p)
    same(h, 'inverse on the left', I[i] * G[i], one, p)
    for j in range(n - 1):
        if abs(i - j) == 1:
            same(h, 'braid relation', G[i] * G[j] * G[i], G[j] * G[i] * G[j], p)
        elif i != j:
            same(h, 'far commutation', G[i] * G[j], G[j] * G[i], p)
    if n > 2:
        # nontrivial: neighbouring generators act differently
        h.check('generators differ', not (G[0] == G[1]))


def cubic(h, n, p, m):
    """Every generator has the eigenvalues 1, -q and t q^2, with the multiplicities of the representation."""
    q, t = unit(h, 'q', m), unit(h, 't', m)
    eigen(h, n, p, q, t)


def eigen(h, n, p, q, t):
    d = n * (n - 1) // 2
    G, I = LKBRep(n, p, q, t).artin_gens_invs()
    one = Matrix.identity(d)
    i = conc(h.fin(f'i{n}', 0, n - 2))

    def minus(x):
        return G[i] - Matrix.from_rows([[LPoly.coerce(x if a == b else 0) for b in range(d)] for a in range(d)])
    same(h, 'eigenvalues', minus(1) * minus(-q) * minus(t * q * q), Matrix.zero(d, d), p)
    tr = LPoly.coerce(0)
    for k in range(d):
        tr = tr + G[i][k, k]
    want = t * q * q - q * (n - 2) + (n - 1) * (n - 2) // 2
    same(h, 'multiplicities', Matrix.from_rows([[tr]]), Matrix.from_rows([[want]]), p)
    same(h, 'inverse', G[i] * I[i], one, p)


def history(h, ns, m, ps):
    """Representations with different parameters, one after the other."""
    first = None
    for k in 'ab':
        n, p = conc(h.fin(k + 'n', ns)), conc(h.fin(k + 'p', ps))
        q, t = unit(h, k + 'q', m, False), unit(h, k + 't', m, False)
        eigen(h, n, p, q, t)
        first = first or (n, p, q, t)
    eigen(h, *first)


def relations(h, n, p, m):
    """Words related by one relation, with signs, evaluate to the same matrix."""
    rep = LKBRep(n, p, unit(h, 'q', m, False), unit(h, 't', m, False))
    ev = rep.evaluate_artin_word
    i, j = conc(h.fin('i', 0, n - 2)), conc(h.fin('j', 0, n - 2))
    s, t = conc(h.fin('s', [-1, 1])), conc(h.fin('t', [-1, 1]))
    same(h, 'inverse', ev([(i, s), (i, -s)]), Matrix.identity(rep.dimension()), p)
    if abs(i - j) == 1:
        same(h, 'braid relation', ev([(i, s), (j, s), (i, s)]), ev([(j, s), (i, s), (j, s)]), p)
        same(h, 'mixed relation', ev([(i, s), (j, t), (i, -s)]), ev([(j, -s), (i, t), (j, s)]), p)
    elif i != j:
        same(h, 'far commutation', ev([(i, s), (j, t)]), ev([(j, t), (i, s)]), p)


def words(h, n, p, m, L, E):
    """Words are evaluated to the product of the listed matrices, in order, and reduced modulo p."""
    rep = LKBRep(n, p, unit(h, 'q', m, False), unit(h, 't', m, False))
    G, I = rep.artin_gens_invs()
    w = cword(h, n, L, E)
    M = rep.evaluate_artin_word(w)
    want = Matrix.identity(rep.dimension())
    for i, e in w:
        for _ in range(abs(e)):
            want = want * (G[i] if e > 0 else I[i])
    same(h, 'word', M, want, p)
    if p:
        h.check('reduced', h.all([h.all([0 <= c, c < p]) for x in M.data for c in LPoly.coerce(x).coeffs]))


def braids(h, n, p, m, L):
    """A braid in either normal form evaluates to the matrix of any word for it."""
    rep = LKBRep(n, p, unit(h, 'q', m, False), unit(h, 't', m, False))
    w = [(conc(h.fin(f'g{i}', 0, n - 2)), conc(h.fin(f'e{i}', [-1, 1]))) for i in range(L)]
    want = rep.evaluate_artin_word(w)
    a, b = GNF.from_artin_word(n, w), DGNF.from_artin_word(n, w)
    for label, x in (('Garside', a), ('dual', b), ('Garside to dual', a.to_DGNF()), ('dual to Garside', b.to_GNF())):
        same(h, label, rep.evaluate(x), want, p)


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for n, p, m, base in ((2, 0, 3, 1), (3, 0, 2, 1), (3, 2, 1, 1), (3, 5, 1, 1), (4, 0, 1, 1), (4, 3, 1, 1), (5, 0, 1, 1), (6, 0, 1, 0), (4, 0, 2, 0)):
        t('gens', base, f'all generators of B{n}; parameters plus or minus v^e with |e| <= {m}; modulo {p}', n=n, p=p, m=m)
    for n, p, m, base in ((2, 0, 2, 1), (3, 0, 1, 1), (3, 3, 1, 1), (4, 0, 1, 0), (4, 2, 0, 1), (5, 0, 0, 0)):
        t('relations', base, f'all pairs of generators of B{n} and signs; parameters plus or minus v^e with |e| <= {m}; modulo {p}', n=n, p=p, m=m)
    for n, p, m, L, E, base in ((2, 0, 1, 1, 4, 1), (3, 0, 1, 2, 1, 1), (3, 2, 0, 2, 2, 1), (3, 3, 1, 2, 1, 1), (4, 0, 0, 2, 1, 1), (4, 5, 0, 1, 2, 1), (3, 0, 0, 3, 1, 0)):
        t('words', base, f'words of {L} letters of B{n} with exponents up to {E}; parameters plus or minus v^e with |e| <= {m}; modulo {p}', n=n, p=p, m=m, L=L, E=E)
    for n, p, m, L, base in ((3, 0, 1, 2, 1), (3, 3, 0, 3, 1), (4, 0, 0, 2, 1), (3, 0, 1, 3, 0)):
        t('braids', base, f'every word of {L} letters of B{n}; parameters plus or minus v^e with |e| <= {m}; modulo {p}', n=n, p=p, m=m, L=L)
    for n, p, m, base in ((2, 0, 3, 1), (3, 0, 2, 1), (3, 2, 1, 1), (4, 0, 1, 1), (4, 5, 1, 0), (5, 0, 1, 0)):
        t('cubic', base, f'all generators of B{n}; parameters plus or minus v^e with |e| <= {m}; modulo {p}', n=n, p=p, m=m)
    for ns, m, ps, base in (((3,), 1, (0,), 1), ((2, 3, 4), 0, (0, 3), 1), ((2, 3), 1, (0, 3), 0)):
        T.append(Task('history-' + ''.join(map(str, ns)) + f'-{m}', 'history', dict(ns=ns, m=m, ps=ps), f'two representations of {ns} strands, modulo {ps}, parameters plus or minus v^e with |e| <= {m}, one after the other', base))
    return T
