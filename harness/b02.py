"""B02: normalising an arbitrary sequence of simple elements."""
from .common import Ctx, Task, conc, GNF, DGNF, Permutation, NPar, add_sequence, sequence

OUTSIDE = 'more strands or longer factor sequences than the stated bounds'


def normalise(h, n, kind, k):
    c = Ctx(h, n, kind)
    rs, fs = c.simples('x', k)
    d, out = c.T.normalise_factors(fs)
    nf = c.cls(n, d, tuple(out))
    c.check_same('normalised sequence', nf, 0, c.G.normalise(rs))


def fixed(G, k, s):
    """A sequence of simple elements that looks arbitrary."""
    out, x = [], s
    for _ in range(k):
        x = (x * 1103515245 + 12345) % 2**31
        out.append(x // 64 % G.N)
    return out


def wide(h, n, kind, k, short=False):
    """A fixed sequence of simple elements in which one is replaced by any other."""
    c = Ctx(h, n, kind)
    G = c.G
    rs = fixed(G, k, 7)
    if short:
        rs = [G.gens[r % (n - 1)] for r in rs]
    at = conc(h.fin('at', sorted({0, k // 2, k - 1})))
    rs[at] = h.fin('x', 0, G.N - 1)
    d, out = c.T.normalise_factors([c.torepo[r] for r in rs])
    c.check_same('normalised sequence', c.cls(n, d, tuple(out)), 0, G.normalise(rs))


def run(h, n, kind, k):
    """Many copies of one simple element and then any other, which may have to go all the way to the front."""
    c = Ctx(h, n, kind)
    G = c.G
    rs = [conc(h.fin('g', 0, G.N - 1))] * k
    x = conc(h.fin('x', 0, G.N - 1))
    rs = rs + [x]
    d, out = c.T.normalise_factors([c.torepo[r] for r in rs])
    c.check_same('normalised sequence', c.cls(n, d, tuple(out)), 0, G.normalise(rs))


def seq(h, n, kind, k):
    """Sequences of permutations or of noncrossing partitions."""
    c = Ctx(h, n, kind)
    G = c.G
    rs = [conc(h.fin(f'x{i}', 0, G.N - 1)) for i in range(k)]
    perms = [Permutation(tuple(G.els[r])) for r in rs]
    if kind == 'gnf':
        nf = GNF.from_perm_seq(n, perms)
    else:
        nf = DGNF.from_npar_seq(n, [NPar.from_permutation(q) for q in perms])
    c.check_same('normal form of the sequence', nf, 0, G.normalise(rs))
    for f in nf.canonical_factors():
        w = list(f.word) if kind == 'gnf' else list(f.to_permutation().word)
        h.check('proper factors', w != list(G.els[G.D]) and w != list(range(n)))


def tasks(tier):
    T = []
    for kind, n, k, base in (('gnf', 2, 8, 1), ('gnf', 3, 4, 1), ('gnf', 3, 6, 1), ('gnf', 3, 7, 0), ('gnf', 4, 2, 1), ('gnf', 4, 3, 1), ('gnf', 4, 4, 1), ('gnf', 5, 2, 1),
                             ('dgnf', 3, 4, 1), ('dgnf', 3, 7, 1), ('dgnf', 4, 3, 1), ('dgnf', 4, 4, 1), ('dgnf', 4, 5, 0), ('dgnf', 5, 2, 1), ('dgnf', 5, 3, 1), ('dgnf', 6, 2, 1),
                             ('gnf', 4, 5, 0), ('gnf', 3, 9, 0), ('dgnf', 4, 6, 0), ('dgnf', 5, 4, 0)):
        T.append(Task(f'norm-{kind}-n{n}-k{k}', 'normalise', dict(n=n, kind=kind, k=k), f'{n} strands, every sequence of {k} simple elements', bool(base)))
    for kind, n, k, base in (('gnf', 2, 5, 1), ('gnf', 3, 3, 1), ('gnf', 4, 2, 1), ('dgnf', 2, 5, 1), ('dgnf', 3, 3, 1), ('dgnf', 4, 2, 1), ('dgnf', 5, 2, 0), ('gnf', 3, 4, 0), ('dgnf', 3, 4, 0)):
        T.append(Task(f'seq-{kind}-n{n}-k{k}', 'seq', dict(n=n, kind=kind, k=k), f'{n} strands, every sequence of {k} simple elements', bool(base)))
    for kind, n, k, short, base in (('gnf', 3, 40, False, 1), ('dgnf', 3, 40, True, 1), ('gnf', 4, 16, True, 1), ('dgnf', 4, 16, False, 1), ('gnf', 5, 6, False, 1), ('dgnf', 5, 12, True, 1),
                                    ('dgnf', 6, 6, False, 1), ('gnf', 6, 3, False, 1), ('gnf', 6, 4, True, 0), ('dgnf', 7, 3, False, 0)):
        T.append(Task(f'wide-{kind}-n{n}-k{k}' + ('-short' if short else ''), 'wide', dict(n=n, kind=kind, k=k, short=short), f'{n} strands, a fixed sequence of {k} ' + ('generators' if short else 'simple elements') + ' in which one is replaced by any simple element', bool(base)))
    for kind, n, k, base in (('gnf', 3, 100, 1), ('gnf', 3, 150, 1), ('dgnf', 3, 150, 1), ('gnf', 4, 70, 1), ('dgnf', 4, 100, 1), ('gnf', 3, 250, 0), ('dgnf', 5, 100, 0)):
        T.append(Task(f'run-{kind}-n{n}-k{k}', 'run', dict(n=n, kind=kind, k=k), f'{n} strands, {k} copies of any simple element followed by any simple element', bool(base)))
    return add_sequence(T, 'b02', 'norm-gnf-n4-k2', 'norm-dgnf-n4-k3', 'norm-gnf-n2-k8', 'norm-gnf-n3-k4')
