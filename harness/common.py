"""Shared helpers of the braid harnesses."""
from peyl.braid import GNF, DGNF, PermTable, NParTable
from peyl.permutations import Permutation
from peyl.noncrossing import NPar

from symx.run import Task
from . import ref


def conc(x):
    """Make a value concrete on the current path."""
    return x if type(x) is int else int(x.__index__())


class Ctx:
    """The repository's table for one group, with the correspondence to the reference structure."""
    def __init__(self, h, n, kind):
        self.n, self.kind = n, kind
        self.G = ref.garside(n, kind)
        self.cls = GNF if kind == 'gnf' else DGNF
        self.T = (PermTable if kind == 'gnf' else NParTable).create(n)
        divs = self.T.divs
        words = [tuple(d.word) if kind == 'gnf' else tuple(d.to_permutation().word) for d in divs]
        self.toref = [self.G.idx[w] for w in words]
        self.torepo = [words.index(w) for w in self.G.els]
        h.freeze(self.T, self.G, self)
        self.h = h

    # inputs
    def simple(self, name):
        """An arbitrary simple element: (reference index, repository index)."""
        x = self.h.fin(name, 0, self.G.N - 1)
        return x, self.torepo[x]

    def simples(self, name, k):
        rs = [self.simple(f'{name}{i}') for i in range(k)]
        return [r for r, _ in rs], [f for _, f in rs]

    def power(self, name, order=None):
        """An unbounded power of the Garside element, given as order * Q + s."""
        t = order or self.G.tau_order
        return self.h.int(name + 'Q') * t + self.h.fin(name + 's', 0, t - 1)

    def nf(self, name, k, power=None):
        """A symbolic normal form with exactly k factors: (repository object, power, reference factors)."""
        h, G = self.h, self.G
        p = self.power(name + 'p') if power is None else power
        rs = []
        for i in range(k):
            if i == 0:
                x = h.fin(f'{name}{i}', G.proper)
            else:
                x = h.fin(f'{name}{i}', G.proper)
                h.assume(G.ok[rs[-1]][x])
            rs.append(x)
        fs = tuple(self.torepo[x] for x in rs)
        return self.cls(self.n, p, fs), p, rs

    def tau(self, x, p):
        """D^-p x D^p in the reference structure."""
        G = self.G
        return G.tau_pow[p % G.tau_order][x]

    def mulseq(self, items):
        """Reference product of a list of (power, simple factor list): (power, left-weighted sequence)."""
        G = self.G
        total = 0
        seq = []
        # D^p1 s1 D^p2 s2 ... = D^(p1+p2+...) tau^(p2+...)(s1) tau^(p3+...)(s2) ...
        for p, s in reversed(items):
            seq = [self.tau(x, total) for x in s] + seq
            total = total + p
        return total, G.normalise(seq)

    def check_same(self, label, nf, rpow, rseq):
        """The repository's normal form denotes D^rpow rseq (rseq left-weighted)."""
        h, G = self.h, self.G
        d = conc(nf.power - rpow)
        m, k = len(nf.factors), len(rseq)
        h.check(label + ':class', type(nf) is self.cls and nf.n == self.n)
        h.check(label + ':length', 0 <= d and d + m <= k)
        fs = [self.toref[f] for f in nf.factors]
        seq = [G.D] * d + fs + [G.id] * (k - d - m)
        h.check(label, h.all([h.eq(a, b) for a, b in zip(seq, rseq)]))
        h.observe(label, [nf.power, list(nf.factors)])

    def letters(self):
        return [(i, e) for i in range(self.n - 1) for e in (1, -1)]

    def word(self, name, k, positive=False):
        """A symbolic word of k letters in the Artin generators: list of (i, e)."""
        ls = [(i, 1) for i in range(self.n - 1)] if positive else self.letters()
        return [self.h.choice(f'{name}{i}', ls) for i in range(k)]

    def refword(self, word):
        """Items (power, simples) for mulseq; the exponents are made concrete."""
        G = self.G
        items = []
        for i, e in word:
            e = conc(e)
            g = G.gens[i]
            if e >= 0:
                items.append((0, [g] * e))
            else:
                items.extend([(-1, [G.lcomp[g]])] * -e)
        return items


class Sub:
    """The inputs of one part of a sequence, told apart by a prefix."""
    def __init__(self, h, prefix):
        self._h, self._p = h, prefix

    def __getattr__(self, name):
        f = getattr(self._h, name)
        if name in ('fin', 'bool', 'int', 'real', 'choice'):
            return lambda label, *a, **k: f(self._p + label, *a, **k)
        return f


def sequence(h, mod, calls):
    """Any of the calls, any other (or the same) one, and the first one again: what came before has no influence."""
    import importlib
    m = importlib.import_module('harness.' + mod)
    i, j = conc(h.fin('first', 0, len(calls) - 1)), conc(h.fin('second', 0, len(calls) - 1))
    for k, prefix in ((i, 'a:'), (j, 'b:'), (i, 'a:')):
        fn, params = calls[k]
        getattr(m, fn)(Sub(h, prefix + str(k) + ':'), **params)


def add_sequence(T, mod, *names, base=True, label=''):
    by = {t.name: t for t in T}
    T.append(Task('sequence' + label, 'sequence', dict(mod=mod, calls=[[by[n].fn, by[n].params] for n in names]),
                  'any two of ' + ', '.join(names) + ', one after the other, and the first again', base))
    return T
