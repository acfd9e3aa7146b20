"""B06: enumerating, counting and sampling normal forms."""
from peyl.braid import BraidGroup
from .common import Ctx, Task, conc, GNF, DGNF, add_sequence, sequence

OUTSIDE = 'more strands or longer normal forms than the stated bounds; n = 1; the distribution of sampled braids'
ASSUMPTIONS = ['the random source only has to supply choices from sequences or ranges it is given (any outcome is allowed)']


def forms(G, length, last=None):
    """Reference enumeration of the left-weighted sequences of proper simples that may follow `last`."""
    out = [()]
    for i in range(length):
        out = [s + (x,) for s in out for x in G.proper if (s and G.ok[s[-1]][x]) or (not s and (last is None or G.ok[last][x]))]
    return out


def same_set(h, c, label, got, want):
    """got (sequences of repository indices) lists exactly `want` (reference sequences), each once."""
    g = [tuple(c.toref[x] for x in s) for s in got]
    h.check(label + ':no repeats', len(set(g)) == len(g))
    h.check(label + ':complete', sorted(g) == sorted(want))


def enumeration(h, n, kind, k):
    """all_of_length with an arbitrary power."""
    c = Ctx(h, n, kind)
    p = c.power('p')
    want = forms(c.G, k)
    got = list(c.cls.all_of_length(n, k, p))
    same_set(h, c, 'all of length', [b.factors for b in got], want)
    h.check('power', h.all([h.eq(b.power, p) for b in got]))
    h.check('class', all(type(b) is c.cls and b.n == n for b in got))
    h.check('default power', all(b.power == 0 for b in c.cls.all_of_length(n, k)))
    h.check('count', c.cls.count_all_of_length(n, k) == len(want))
    if kind == 'gnf':
        got = list(BraidGroup(n).all_of_garside_length(k, p))
        same_set(h, c, 'all of garside length', [b.factors for b in got], want)
        h.check('garside power', h.all([h.eq(b.power, p) for b in got]))
        h.check('garside count', BraidGroup(n).count_all_of_garside_length(k) == len(want))
    h.observe('n', [len(got)])


def membership(h, n, kind, k):
    """An arbitrary sequence of simples occurs once among the enumerated forms if it is left-weighted and proper, else never."""
    c = Ctx(h, n, kind)
    G = c.G
    rs, fs = c.simples('x', k)
    good = h.all([h.not_(h.eq(x, G.id)) for x in rs] + [h.not_(h.eq(x, G.D)) for x in rs] + [G.ok[x][y] for x, y in zip(rs, rs[1:])])
    got = [b.factors for b in c.cls.all_of_length(n, k)]
    hits = sum([h.ite(h.all([h.eq(x, y) for x, y in zip(fs, s)]), 1, 0) for s in got])
    h.check('occurs exactly when it is a normal form', h.eq(hits, h.ite(good, 1, 0)))


def counting(h, n, kind, kmax):
    """The count for any length up to the bound and any starting factor (symbolic) against the transfer matrix."""
    c = Ctx(h, n, kind)
    G = c.G
    k = conc(h.fin('k', 0, kmax))
    r = h.fin('x', 0, G.N - 1)
    f = c.torepo[r]
    # ways[x] = number of sequences of length k following x
    ways = [1] * G.N
    for _ in range(k):
        ways = [sum(ways[y] for y in G.proper if G.ok[x][y]) for x in range(G.N)]
    h.check('count following', h.eq(c.T.count_normal_forms(k, following=f), ways[r]))
    h.check('count', h.eq(c.T.count_normal_forms(k), ways[G.D]))
    h.check('count of all', h.eq(c.cls.count_all_of_length(n, k), ways[G.D]))


def large_counts(h, n, kind, ks):
    """Counts far beyond machine integers, against the transfer matrix in unbounded integers."""
    G = Ctx(h, n, kind).G
    k = conc(h.fin('k', ks))
    follow = [[y for y in G.proper if G.ok[x][y]] for x in range(G.N)]
    ways = [1] * G.N
    for _ in range(k):
        ways = [sum(ways[y] for y in follow[x]) for x in range(G.N)]
    cls = GNF if kind == 'gnf' else DGNF
    h.check('count', h.eq(cls.count_all_of_length(n, k), ways[G.D]))
    if kind == 'gnf':
        h.check('braid group', h.eq(BraidGroup(n).count_all_of_garside_length(k), ways[G.D]))


def descendants(h, n, kind, k):
    """One-factor extensions of an arbitrary normal form, any power."""
    c = Ctx(h, n, kind)
    G = c.G
    a, p, rs = c.nf('a', k)
    got = list(a.nf_descendants())
    last = conc(rs[-1]) if rs else None
    want = [(x,) for x in G.proper if last is None or G.ok[last][x]]
    same_set(h, c, 'descendants', [tuple(conc(x) for x in b.factors[k:]) for b in got], want)
    for b in got:
        h.check('extends', h.all([h.eq(b.power, p), len(b.factors) == k + 1] + [h.eq(x, y) for x, y in zip(b.factors, a.factors)]))
    h.observe('descendants', [len(got)])


def suffixes(h, n, kind, k, m):
    """The sequences that can follow an arbitrary normal form without cancellation."""
    c = Ctx(h, n, kind)
    G = c.G
    a, p, rs = c.nf('a', k)
    last = conc(rs[-1]) if rs else None
    got = list(a.nf_suffixes(m))
    want = forms(G, m, last)
    same_set(h, c, 'suffixes', [tuple(conc(x) for x in b.factors) for b in got], want)
    for b in got:
        r = a * b
        h.check('no cancellation', h.all([h.eq(r.power, p), len(r.factors) == k + m] +
                                         [h.eq(x, y) for x, y in zip(r.factors, tuple(a.factors) + tuple(b.factors))]))
    h.observe('suffixes', [len(got)])


def following(h, n, kind, k):
    """Table-level enumeration after an arbitrary factor."""
    c = Ctx(h, n, kind)
    G = c.G
    r = h.fin('x', 0, G.N - 1)
    got = list(c.T.normal_forms(k, following=c.torepo[r]))
    want = forms(G, k, conc(r))
    same_set(h, c, 'following', [tuple(conc(x) for x in s) for s in got], want)
    h.observe('n', [len(got)])


class Rand:
    """A random source with arbitrary outcomes."""
    def __init__(self, h):
        self.h, self.k = h, 0

    def name(self):
        self.k += 1
        return f'r{self.k}'

    def choice(self, seq):
        return self.h.choice(f'{self.name()}of{len(seq)}', seq)

    def choices(self, population, weights=None, cum_weights=None, k=1):
        assert weights is None and cum_weights is None
        return [self.choice(population) for _ in range(k)]

    def randrange(self, a, b=None):
        a, b = (0, a) if b is None else (a, b)
        return self.h.fin(f'{self.name()}of{conc(a)}to{conc(b)}', conc(a), conc(b) - 1)

    def randint(self, a, b):
        return self.h.fin(f'{self.name()}of{conc(a)}to{conc(b) + 1}', conc(a), conc(b))

    def random(self):
        return self.h.real(self.name(), 0, 1, True)


def sample(h, n, kind, k):
    """Every outcome of sampling is a valid normal form of the requested length."""
    c = Ctx(h, n, kind)
    b = c.cls.sample(n, k, Rand(h))
    fs = [c.toref[f] for f in b.factors]
    h.check('length', len(fs) == k and b.n == n and type(b) is c.cls and b.power == 0)
    G = c.G
    h.check('proper factors', h.all([h.not_(h.eq(x, G.id)) for x in fs] + [h.not_(h.eq(x, G.D)) for x in fs]))
    h.check('left weighted', h.all([G.ok[x][y] for x, y in zip(fs, fs[1:])]))
    h.observe('factors', list(b.factors))


class Steer(Rand):
    """Chooses the entries of a given target one after the other (if the sampler draws one factor per choice)."""
    def __init__(self, h, target):
        super().__init__(h)
        self.target, self.ok, self.other = target, [], False

    def choice(self, seq):
        i = self.k
        self.k += 1
        if i < len(self.target):
            self.ok.append(self.h.any([self.h.eq(self.target[i], y) for y in seq]))
            return self.target[i]
        self.other = True
        return seq[0]

    def randrange(self, *a):
        self.other = True
        return 0

    randint = random = choices = randrange


def reach(h, n, kind, k):
    """Every normal form is a possible outcome."""
    c = Ctx(h, n, kind)
    a, _, _ = c.nf('a', k, power=0)
    R = Steer(h, a.factors)
    try:
        b = c.cls.sample(n, k, R)
    except (TypeError, AttributeError):
        R.other = True
    if not R.other and R.k == k:
        h.check('offered', h.all(R.ok))
        h.check('outcome', h.eq(b, a))
    else:
        h.check('sampler draws differently', True)


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for kind in ('gnf', 'dgnf'):
        for n, ks in ((2, (0, 1, 3)), (3, (0, 1, 4)), (4, (1, 2, 3 if kind == 'dgnf' else 2)), (5, (1,))):
            for k in sorted(set(ks)):
                t('enumeration', 1, f'{n} strands, length {k}, any power', n=n, kind=kind, k=k)
        for n, k in ((3, 3), (4, 2)) + (((4, 3),) if kind == 'dgnf' else ()):
            t('membership', 1, f'{n} strands, every sequence of {k} simples', n=n, kind=kind, k=k)
        for n, k in ((3, 12), (4, 8), (5, 6)):
            t('counting', 1, f'{n} strands, lengths 0..{k}, every starting factor', n=n, kind=kind, kmax=k)
        for n, ks in ((3, (31, 33, 64, 80)), (4, (9, 20, 24, 30))):
            t('large_counts', 1, f'{n} strands, lengths {ks}', n=n, kind=kind, ks=ks)
        for n, k, base in ((2, 0, 1), (3, 0, 1), (3, 5, 1), (4, 0, 1), (4, 3, 1), (5, 1, 1), (5, 2, 1)):
            t('descendants', base, f'{n} strands, {k} factors, any power', n=n, kind=kind, k=k)
        for n, k, m, base in ((3, 0, 3, 1), (3, 2, 4, 1), (4, 0, 1, 1), (4, 1, 1, 1), (4, 1, 2, 1), (5, 1, 1, 1)):
            t('suffixes', base, f'{n} strands, {k} factors, any power, suffix length {m}', n=n, kind=kind, k=k, m=m)
        for n, k, base in ((3, 0, 1), (3, 4, 1), (4, 2, 1), (5, 1, 1)):
            t('following', base, f'{n} strands, length {k}, every starting factor', n=n, kind=kind, k=k)
        for n, k, base in ((3, 1, 1), (3, 8, 1), (4, 5, 1), (5, 3, 1)):
            t('sample', base, f'{n} strands, length {k}, every outcome of the random source', n=n, kind=kind, k=k)
            t('reach', base, f'{n} strands, every normal form of length {k}', n=n, kind=kind, k=k)
    return add_sequence(T, 'b06', 'enumeration-3-gnf-1', 'enumeration-4-gnf-1', 'enumeration-3-dgnf-1', 'following-3-gnf-0', 'following-3-dgnf-0', 'descendants-3-gnf-5', 'descendants-3-dgnf-5', 'suffixes-3-gnf-2-4', 'suffixes-3-dgnf-2-4', 'sample-3-gnf-1', 'sample-3-dgnf-8')
