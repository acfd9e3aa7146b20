"""Shared parts of the harnesses of the search trackers."""
import itertools
from fractions import Fraction

import numpy as np

from peyl import braidsearch, bucketing
from peyl.braid import GNF
from peyl.braidsearch import JonesSummand
from peyl.bucketing import Stats
from peyl.jonesrep import JonesCellRep
from .common import conc


class Rand:
    """A source of randomness: draws are symbolic, or come from a script (the discrete ones)."""
    def __init__(self, h, name='r'):
        self.h, self.name, self.k, self.script, self.sizes, self.reals = h, name, 0, None, [], []

    def random(self):
        u = self.h.real(f'{self.name}u{self.k}', 0, 1, True)
        self.k += 1
        self.reals.append(u)
        return u

    def pick(self, n):
        if self.script is not None:
            i = self.script[len(self.sizes)] if len(self.sizes) < len(self.script) else 0
            self.sizes.append(n)
            return i
        # finite domains must be the same on all paths: the size is part of the name
        i = conc(self.h.fin(f'{self.name}d{self.k}of{n}', 0, n - 1))
        self.k += 1
        return i

    def randrange(self, a, b=None):
        return self.pick(a) if b is None else a + self.pick(b - a)

    def randint(self, a, b):
        return a + self.pick(b - a + 1)

    def choice(self, seq):
        return seq[self.pick(len(seq))]


class Fixed:
    """A fixed sequence of draws, for long streams in which only the last item's draws are open."""
    def __init__(self, s=1):
        self.k = s

    def random(self):
        self.k += 1
        return (self.k * 37 % 64) / 64

    def pick(self, n):
        self.k += 1
        return (self.k * 7 + 3) % n

    def randrange(self, a, b=None):
        return self.pick(a) if b is None else a + self.pick(b - a)

    def randint(self, a, b):
        return a + self.pick(b - a + 1)

    def choice(self, seq):
        return seq[self.pick(len(seq))]


class NoRand:
    """Randomness that must not be used."""
    def __getattr__(self, name):
        raise AssertionError('randomness used')


def braids(n, k, m):
    """m different braids with k factors (concrete)."""
    out = list(itertools.islice((b for p in range(0, 100) for b in GNF.all_of_length(n, k, p)), m))
    assert len(out) == m
    return out


def weigher(ws, bs):
    """A weight statistic giving every braid its own weight."""
    table = {b: w for b, w in zip(bs, ws)}

    class W(bucketing.BraidStatBase):
        name = 'weight'

        @staticmethod
        def calculate(rep, braids, images):
            return [table[b] for b in braids]
    return W


def tracker(method, cap, rand, weight=None, keys=(Stats.CanonicalLength, Stats.ProjectiveLength), other=(), rep=None):
    return bucketing.Tracker(rep or JonesCellRep(3, 1, 0), cap, list(keys), list(other), method, weight, rand)


def older(cap, rand, keys=('length', 'projlen'), rep=None, criterion=None):
    return braidsearch.Tracker(rep or JonesSummand(3, 1, 0), cap, keys, criterion or (lambda x: x['length'] >= 0), rand)


def marks(m):
    """m one by one images of width one, told apart by their entry."""
    return np.array([[[[i + 1]]] for i in range(m)])


def groups(h, m, name='cut'):
    """The items 0..m-1 split into consecutive batches in any way."""
    out = [[0]]
    for i in range(1, m):
        if conc(h.fin(f'{name}{i}', 0, 1)):
            out.append([i])
        else:
            out[-1].append(i)
    return out


def offer(t, bs, images, gs):
    for g in gs:
        t.add_braids_images([bs[i] for i in g], images[np.array(g)])


def content(t, tag):
    """The stored triples, in order of position."""
    if isinstance(t, bucketing.Tracker):
        b = t.buckets[tag]
        xs, im = b.braids_images()
        return [(xs[i], im[i], b.weights[i]) for i in range(len(xs))]
    xs, im = t.bucket_braids_images(tag)
    return [(xs[i], im[i], None) for i in range(len(xs))]


def same_image(h, A, B):
    if tuple(A.shape) != tuple(B.shape):
        return False
    return h.all([h.eq(x, y) for x, y in zip(list(A.reshape(-1)), list(B.reshape(-1)))])


def outcomes(h, run):
    """All outcomes of `run(rand)` over its discrete draws, with their probabilities."""
    todo, res = [[]], []
    while todo:
        script = todo.pop()
        r = Rand(h, 'last')
        r.script = script
        out = run(r)
        # extend the script over the draws it did not fix
        for k in range(len(script), len(r.sizes)):
            for v in range(1, r.sizes[k]):
                todo.append(script + [0] * (k - len(script)) + [v])
        p = Fraction(1)
        for n in r.sizes:
            p /= n
        res.append((out, p, list(r.reals)))
    return res
