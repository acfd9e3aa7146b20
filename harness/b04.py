"""B04: words and decompositions read off a braid rebuild exactly that braid."""
from peyl.braid import BraidGroup
from peyl.permutations import Permutation
from peyl.noncrossing import NPar
from .common import Ctx, Task, conc, GNF, DGNF, add_sequence, sequence
from . import ref

OUTSIDE = 'more strands, longer normal forms or larger powers than the stated bounds; n = 1'


def perm_of(c, d):
    """The permutation underlying a divisor reported by the repository."""
    return d.word if c.kind == 'gnf' else d.to_permutation().word


def words(h, n, kind, k, pmax):
    """The Artin word and its 1-based signed form denote the braid, and rebuild it."""
    c = Ctx(h, n, kind)
    p = conc(h.fin('p', -pmax, pmax))
    a, p, rs = c.nf('a', k, power=p)
    w = a.artin_word()
    m = a.magma_artin_word()
    d, seq = c.mulseq(c.refword(w))
    c.check_same('the Artin word denotes the braid', a, d, seq)
    h.check('rebuilt from its Artin word', h.eq(c.cls.from_artin_word(n, w), a))
    h.check('signed integers spell the same word', len(m) == len(w) and h.all([h.eq(x, (i + 1) * e) for x, (i, e) in zip(m, w)]))


def decomposition(h, n, kind, k):
    """inf, sup, canonical length and canonical factors, and the braid rebuilt from them (any power)."""
    c = Ctx(h, n, kind)
    G = c.G
    a, p, rs = c.nf('a', k)
    h.check('infimum', h.all([h.eq(a.inf(), p), h.eq(a.sup(), p + k), h.eq(a.canonical_length(), k)]))
    inf, facs = a.canonical_decomposition()
    fac2 = a.canonical_factors()
    h.check('decomposition', h.eq(inf, p) and len(facs) == k and len(fac2) == k)
    for i in range(k):
        for f in (facs[i], fac2[i], a.canonical_factor(i), a.canonical_factor(i - k)):
            h.check('canonical factor', h.eq(tuple(perm_of(c, f)), G.els[rs[i]]))
    seq = c.cls.from_perm_seq(n, list(facs)) if kind == 'gnf' else c.cls.from_npar_seq(n, list(facs))
    h.check('rebuilt from its factors', h.eq(c.cls(n, inf, ()) * seq, a))
    if kind == 'gnf':
        B = BraidGroup(n)
        h.check('Garside length', a.garside_length() == k)
        h.check('rebuilt from the pair', h.eq(B.from_gnf_pair((inf, tuple(f.word for f in facs))), a))
    h.observe('facs', [perm_of(c, f) for f in facs])


def pair(h, n, k):
    """from_gnf_pair of an infimum and arbitrary permutations."""
    c = Ctx(h, n, 'gnf')
    rs, fs = c.simples('x', k)
    p = c.power('p')
    b = BraidGroup(n).from_gnf_pair((p, tuple(c.G.els[r] for r in rs)))
    d, seq = c.mulseq([(p, rs)])
    c.check_same('from the pair', b, d, seq)


def substr(h, n, kind, k):
    c = Ctx(h, n, kind)
    a, p, rs = c.nf('a', k)
    i = conc(h.fin('i', -1, k + 1))
    j = conc(h.fin('j', -1, k + 1))
    if not 0 <= i <= j <= k:
        h.check('out of range', h.raises((AssertionError, ValueError, IndexError), lambda: a.substring(i, j)))
        return
    s = a.substring(i, j)
    c.check_same('substring', s, p, rs[i:j])
    h.check('full substring is the braid', h.eq(a.substring(0, k), a))


def lift(h, n, kind):
    """Lifts of single simple elements and the generator lists."""
    c = Ctx(h, n, kind)
    G = c.G
    r, f = c.simple('x')
    seq = [r]
    B = BraidGroup(n)
    if kind == 'gnf':
        perm = Permutation(tuple(G.els[r]))
        outs = [GNF.from_perm(perm), B.positive_lift(perm), GNF.from_perm_seq(n, [perm])]
    else:
        npar = NPar.from_permutation(Permutation(tuple(G.els[r])))
        outs = [DGNF.from_npar(npar), B.from_npar(npar), DGNF.from_npar_seq(n, [npar])]
    for o in outs:
        c.check_same('lift of a simple element', o, 0, seq)
    g = h.fin('g', 0, n - 2)
    for name, o in (('artin_gens', c.cls.artin_gens(n)[g]),) + ((('gens', B.gens()[g]),) if kind == 'gnf' else ()):
        c.check_same(name, o, 0, [G.gens[g]])
    if kind == 'gnf':
        inv = B.invs()[g]
        c.check_same('invs', inv, *c.mulseq([(-1, [G.lcomp[G.gens[g]]])]))
    h.check('identity', h.eq(c.cls.identity(n), c.cls(n, 0, ())) and h.eq(B.id(), GNF(n, 0, ())))


def refuse(h, n, m):
    """Simple elements of another group are refused by every lift."""
    G = ref.garside(n, 'gnf')
    K = ref.garside(n, 'dgnf')
    perm = Permutation(tuple(G.els[conc(h.fin('x', 0, G.N - 1))]))
    npar = NPar.from_permutation(Permutation(tuple(K.els[conc(h.fin('y', 0, K.N - 1))])))
    B = BraidGroup(m)
    errs = (AssertionError, ValueError, KeyError)
    h.check('positive_lift', h.raises(errs, lambda: B.positive_lift(perm)))
    h.check('from_npar', h.raises(errs, lambda: B.from_npar(npar)))
    h.check('from_perm_seq', h.raises(errs, lambda: GNF.from_perm_seq(m, [perm])))
    h.check('from_npar_seq', h.raises(errs, lambda: DGNF.from_npar_seq(m, [npar])))
    h.check('from_gnf_pair', h.raises(errs, lambda: B.from_gnf_pair((1, (perm.word,)))))


def bkl(h, n):
    """Band generators: both index orders, and the identity on the diagonal."""
    c = Ctx(h, n, 'dgnf')
    G = c.G
    i, j = conc(h.fin('i', 0, n - 1)), conc(h.fin('j', 0, n - 1))
    want = [G.idx[ref.ptrans(n, i, j)]] if i != j else []
    c.check_same('DGNF.bkl_gens', DGNF.bkl_gens(n)[(i, j)], 0, want)
    c.check_same('BraidGroup.bkl_gens', BraidGroup(n).bkl_gens()[(i, j)], 0, want)


def equality(h, n, kind, k):
    """Normal forms are equal, and hash equal, exactly when they have the same infimum and factors."""
    c = Ctx(h, n, kind)
    a, p, rs = c.nf('a', k)
    b, q, ss = c.nf('b', k)
    same = h.all([h.eq(p, q)] + [h.eq(x, y) for x, y in zip(rs, ss)])
    h.check('equality', h.iff(a == b, same))
    h.check('inequality', h.iff(a != b, h.not_(same)))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for kind in ('gnf', 'dgnf'):
        for n, k, pm, base in ((2, 0, 3, 1), (3, 2, 2, 1), (4, 1, 2, 1), (4, 2, 1, 1), (5, 1, 1, 1), (3, 1, 9, 1), (2, 0, 16, 1), (4, 0, 6, 1), (3, 3, 2, 0), (4, 3, 1, 0), (5, 2, 1, 0)):
            if kind == 'gnf' and n == 5:
                base, k = 0, 1
            t('words', base, f'{n} strands, {k} factors, powers -{pm}..{pm}', n=n, kind=kind, k=k, pmax=pm)
        for n, k, base in ((3, 3, 1), (4, 2, 1), (5, 2, 0), (4, 3, 0)):
            t('decomposition', base, f'{n} strands, {k} factors, any power', n=n, kind=kind, k=k)
        for n, k in ((3, 3), (4, 3), (5, 2)):
            t('substr', 1, f'{n} strands, {k} factors, any power', n=n, kind=kind, k=k)
        for n in (2, 3, 4, 5) + ((6,) if kind == 'dgnf' else ()):
            t('lift', n < 6, f'{n} strands, every simple element', n=n, kind=kind)
        t('equality', 1, '4 strands, 2 factors, any powers', n=4, kind=kind, k=2)
    for n, k, base in ((3, 3, 1), (4, 2, 1), (4, 3, 0)):
        t('pair', base, f'{n} strands, {k} arbitrary permutations, any infimum', n=n, k=k)
    for n, m in ((2, 3), (3, 2), (3, 4), (4, 3), (4, 5)):
        t('refuse', 1, f'every simple element of B{n} offered to B{m}', n=n, m=m)
    for n in (3, 4, 5):
        t('bkl', 1, f'{n} strands', n=n)
    return add_sequence(T, 'b04', 'words-2-gnf-0-3', 'lift-3-gnf', 'lift-4-gnf', 'lift-4-dgnf', 'words-2-dgnf-0-3', 'decomposition-3-gnf-3', 'lift-3-dgnf')
