"""S04: advancing a bucket produces exactly the true descendants with true images."""
import collections
import contextlib

import numpy as np

from peyl import braidsearch, bucketing
from peyl.braid import GNF, DGNF
from peyl.bucketing import Stats
from peyl.matrix import Matrix
from .common import Ctx, Task, conc, add_sequence, sequence
from .r01 import Given
from .r03 import rep_of, upto, want
from .track import NoRand, content, older, tracker

OUTSIDE = 'more strands, longer braids and larger buckets than the stated bounds'
ASSUMPTIONS = ['buckets large enough to hold everything that is offered']


def forms(C, k, first=None):
    """All sequences of k reference factors in normal form, after a given one."""
    G = C.G
    out = [[]]
    for _ in range(k):
        out = [s + [x] for s in out for x in G.proper if (not s and first is None) or G.ok[s[-1] if s else first][x]]
    return [tuple(C.torepo[x] for x in s) for s in out]


def chosen(h, C, name, k, P):
    """A normal form, one for each path."""
    b = C.nf(name, k, power=h.fin(name + 'P', -P, P))[0]
    return C.cls(C.n, conc(b.power), tuple(conc(f) for f in b.factors))


def descendants(C, b, k):
    fs = forms(C, k, C.toref[b.factors[-1]] if b.factors else None)
    return [C.cls(C.n, b.power, b.factors + s) for s in fs]


def all_content(t, skip=()):
    return [(tag, b, im) for tag in sorted(t.buckets) if tag not in skip for b, im, _ in content(t, tag)]


def generic(h, C, d, keep=False):
    """A representation with any positive integer matrices, and its products of letters."""
    n = C.n
    G = [[[h.fin(f'g{g}{i}{j}', 1, 2) for j in range(d)] for i in range(d)] for g in range(n - 1)]
    rep = Given(n, 0, d, [Matrix.from_rows(x) for x in G], [Matrix.from_rows(x) for x in G])

    def image(b):
        M = [[int(i == j) for j in range(d)] for i in range(d)]
        for i, e in b.artin_word():
            for _ in range(abs(e)):
                M = [[sum([M[x][y] * G[i][y][z] for y in range(d)]) for z in range(d)] for x in range(d)]
        return M
    return rep, image


def advance(h, kind, n, k, m, step, P, d=0, r=1, p=0):
    """The descendants of a bucket with any braids, in any representation or in a Jones representation."""
    C = Ctx(h, n, kind)
    bs = [chosen(h, C, f'b{i}', k, P) for i in range(m)]
    h.assume(len(set(bs)) == m)
    if d:
        rep, image = generic(h, C, d)
    else:
        rep = rep_of('rep', n, r, p)
    t = tracker('GreedyFirst', 1000, NoRand(), rep=rep)
    t.add_braids_images(bs, rep.polymat_evaluate_braids_of_same_length(bs))
    start = sorted(t.buckets)
    expect = collections.Counter(x for b in bs for x in descendants(C, b, step))
    for tag in start:
        t.nf_descendants(tag, step)
    got = all_content(t, start)
    h.check('exactly the descendants', collections.Counter(b for _, b, _ in got) == expect)
    for tag, b, im in got:
        h.check('tag', tag == (k + step, im.shape[-1]))
        if d:
            M = image(b)
            h.check('image', im.shape == (d, d, 1) and h.all([h.eq(im[i, j, 0], M[i][j]) for i in range(d) for j in range(d)]))
        else:
            upto(h, 'image', im, want(b, r, p))
    h.check('the bucket itself is kept', sorted(b for tag in start for b, _, _ in content(t, tag)) == sorted(bs))


@contextlib.contextmanager
def chunks(h, *modules):
    """Work is split into chunks of any small size, instead of thousands."""
    size = conc(h.fin('chunk', 0, 3))
    saved = [(m, m.batched) for m in modules if size and hasattr(m, 'batched')]
    try:
        for m, f in saved:
            m.batched = (lambda f: lambda it, n: f(it, min(n, size)))(f)
        yield size
    finally:
        for m, f in saved:
            m.batched = f


def twice(h, kind, n, k, r, p, P):
    """Advancing several buckets one after another, with what has been remembered in between."""
    C = Ctx(h, n, kind)
    a, b = chosen(h, C, 'a', k, P), chosen(h, C, 'b', k + 1, P)
    rep = rep_of('rep', n, r, p)
    t = tracker('GreedyFirst', 1000, NoRand(), rep=rep)
    for x, s in ((a, 1), (b, 2), (b, 1), (a, 2)):
        for tag in list(t.buckets):
            t.discard_bucket(tag)
        t.add_braids_images([x], rep.polymat_evaluate_braids_of_same_length([x]))
        (tag,) = t.buckets
        t.nf_descendants(tag, s)
        got = all_content(t, [tag])
        h.check('exactly the descendants', sorted(y for _, y, _ in got) == sorted(descendants(C, x, s)))
        for _, y, im in got:
            upto(h, 'image', im, want(y, r, p))


def kinds(h, n, k, r, p):
    """A tracker that holds braids in both kinds of normal form, advanced in either order."""
    rep = rep_of('rep', n, r, p)
    t = bucketing.Tracker(rep, 1000, [Stats.NFKind, Stats.CanonicalLength, Stats.ProjectiveLength], [], 'GreedyFirst', rand=NoRand())
    first = conc(h.fin('first', [0, 1]))
    order = ['gnf', 'dgnf'] if first else ['dgnf', 'gnf']
    held = {}
    for kind in order:
        C = Ctx(h, n, kind)
        x = held[C.cls.__name__] = (C, chosen(h, C, kind, k, 0))[1], C
        t.add_braids_images([x[0]], rep.polymat_evaluate_braids_of_same_length([x[0]]))
    start = list(t.buckets)
    h.check('one bucket for each kind', sorted(tag[0] for tag in start) == ['DGNF', 'GNF'])
    for tag in start:
        t.nf_descendants(tag, 1)
    for name, (x, C) in held.items():
        got = [(b, im) for tag in t.buckets if tag not in start and tag[0] == name for b, im, _ in content(t, tag)]
        h.check('exactly the descendants', sorted(b for b, _ in got) == sorted(descendants(C, x, 1)))
        for b, im in got:
            upto(h, 'image', im, want(b, r, p))


def bootstrap(h, kind, n, r, upto_length, which='new'):
    """Every normal form of each length, once, with its image."""
    p = conc(h.fin('p', [0, 2, 3]))
    C = Ctx(h, n, kind)
    with chunks(h, bucketing, braidsearch):
        if which == 'new':
            t = tracker('GreedyFirst', 10000, NoRand(), rep=rep_of('rep', n, r, p))
            t.bootstrap_exhaustive(C.cls, upto_length)
        else:
            t = older(10000, None, rep=rep_of('summand', n, r, p))
            t.bootstrap_exhaustive(upto_length)
    got = all_content(t)
    expect = collections.Counter(C.cls(n, 0, s) for k in range(1, upto_length + 1) for s in forms(C, k))
    h.check('exactly the normal forms', collections.Counter(b for _, b, _ in got) == expect)
    if which == 'old':
        h.check('each once', sum(t.bucket_reservoir_counts.values()) == len(got))
    for tag, b, im in got:
        h.check('tag', tag == (b.canonical_length(), im.shape[-1]))
        upto(h, 'image', im, want(b, r, p))


def old_advance(h, n, k, m, step, P, r, p):
    C = Ctx(h, n, 'gnf')
    bs = [chosen(h, C, f'b{i}', k, P) for i in range(m)]
    h.assume(len(set(bs)) == m)
    rep = rep_of('summand', n, r, p)
    t = older(1000, None, rep=rep)
    t.add_braids_images(bs, braidsearch.evaluate_braids_of_same_length(rep, bs))
    start = sorted(t.buckets)
    expect = set(x for b in bs for s in range(1, step + 1) for x in descendants(C, b, s))
    with chunks(h, braidsearch):
        for tag in start:
            t.nf_descendants(tag, step)
    got = all_content(t, start)
    h.check('exactly the descendants', sorted(b for _, b, _ in got) == sorted(expect))
    full = sum(c for tag, c in t.bucket_reservoir_counts.items() if tag not in start and tag[0] == k + step)
    h.check('each longest one once', full == len([b for b in expect if b.canonical_length() == k + step]))
    for tag, b, im in got:
        h.check('tag', tag == (b.canonical_length(), im.shape[-1]))
        upto(h, 'image', im, want(b, r, p))


def large(h, which, k, step, p):
    """Buckets larger than the chunks in which they are worked off."""
    C = Ctx(h, 3, 'gnf')
    P = conc(h.fin('P', [0, 1]))
    bs = [GNF(3, P, s) for s in forms(C, k)]
    if which == 'new':
        rep = rep_of('rep', 3, 1, p)
        t = tracker('GreedyFirst', 10000, NoRand(), rep=rep)
        t.add_braids_images(bs, rep.polymat_evaluate_braids_of_same_length(bs))
    else:
        rep = rep_of('summand', 3, 1, p)
        t = older(10000, None, rep=rep)
        t.add_braids_images(bs, braidsearch.evaluate_braids_of_same_length(rep, bs))
    start = sorted(t.buckets)
    held = sum(len(content(t, tag)) for tag in start)
    h.check('all held', held == len(bs))
    for tag in start:
        t.nf_descendants(tag, step)
    got = all_content(t, start)
    steps = [step] if which == 'new' else range(1, step + 1)
    expect = {GNF(3, P, s) for i in steps for s in forms(C, k + i)}
    h.check('exactly the descendants', len({b for _, b, _ in got}) == len(expect) and {b for _, b, _ in got} == expect)
    longest = [(b, im) for tag, b, im in got if tag[0] == k + step]
    h.check('each longest one once', len(longest) == len([b for b in expect if len(b.factors) == k + step]))
    for b, im in longest:
        upto(h, 'image', im, want(b, 1, p))


def old_product(h, n, k, l, P, r, p):
    """The products of two buckets."""
    C = Ctx(h, n, 'gnf')
    a, b, c = chosen(h, C, 'a', k, P), chosen(h, C, 'b', l, 0), chosen(h, C, 'c', k, 0)
    h.assume(a != c)
    rep = rep_of('summand', n, r, p)
    t = older(1000, None, rep=rep)
    t.add_braids_images([a, c], braidsearch.evaluate_braids_of_same_length(rep, [a, c]))
    u = older(1000, None, rep=rep)
    u.add_braids_images([b], braidsearch.evaluate_braids_of_same_length(rep, [b]))
    (tag2,) = u.buckets
    tag1 = [tag for tag, x, _ in all_content(t) if x == a][0]
    left = [x for x, _, _ in content(t, tag1)]
    if tag2 not in t.buckets:
        t.add_braids_images([b], u.bucket_braids_images(tag2)[1])
    right = [x for x, _, _ in content(t, tag2)]
    before = {x for _, x, _ in all_content(t)}
    t.bucket_product(tag1, tag2)
    got = all_content(t)
    h.check('exactly the products', {x for _, x, _ in got} == before | {x * y for x in left for y in right} and len(got) == len({x for _, x, _ in got}))
    for tag, x, im in got:
        h.check('tag', tag == (x.canonical_length(), im.shape[-1]))
        upto(h, 'image', im, want(x, r, p))


def substrings(h, n, k, r, p):
    """Only substrings of the braids, each with its own image."""
    C = Ctx(h, n, 'gnf')
    b = chosen(h, C, 'b', k, 0)
    rep = rep_of('summand', n, r, p)
    t = older(1000, None, rep=rep)
    t.add_braids_images([b], braidsearch.evaluate_braids_of_same_length(rep, [b]))
    (tag,) = list(t.buckets)
    t.substrings(tag)
    for tag, x, im in all_content(t):
        subs = [b.factors[i:j] for i in range(k + 1) for j in range(i, k + 1)]
        h.check('a substring', x == b or (x.power == 0 and x.factors in subs))
        h.check('tag', tag == (x.canonical_length(), im.shape[-1]))
        upto(h, 'image', im, want(x, r, p))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for kind, n, k, m, step, P, d, base in (('gnf', 3, 1, 1, 1, 0, 2, 1), ('gnf', 3, 2, 2, 1, 0, 1, 1), ('dgnf', 3, 1, 2, 1, 0, 1, 1), ('dgnf', 3, 1, 1, 2, 0, 1, 1), ('gnf', 3, 0, 1, 1, 0, 2, 1), ('gnf', 3, 0, 1, 2, 0, 1, 1), ('dgnf', 4, 1, 1, 1, 0, 1, 1), ('gnf', 3, 1, 3, 1, 0, 1, 1)):
        t('advance', base, f'every bucket of {m} normal forms of B{n} with {k} factors, {step} steps, any {d} x {d} matrices with entries 1..2', kind=kind, n=n, k=k, m=m, step=step, P=P, d=d)
    for kind, n, k, m, step, P, r, p, base in (('gnf', 3, 1, 2, 1, 1, 1, 0, 1), ('gnf', 3, 2, 2, 1, 0, 1, 3, 1), ('gnf', 3, 1, 2, 2, 0, 1, 2, 1), ('gnf', 4, 1, 1, 1, 0, 1, 3, 1), ('dgnf', 3, 1, 2, 1, 1, 1, 0, 1), ('dgnf', 4, 1, 1, 1, 1, 2, 2, 1), ('gnf', 3, 0, 2, 1, 2, 1, 0, 1), ('dgnf', 4, 0, 1, 1, 3, 1, 3, 1), ('dgnf', 4, 2, 1, 1, 0, 1, 0, 1), ('gnf', 4, 1, 2, 1, 0, 2, 3, 0)):
        t('advance', base, f'every bucket of {m} normal forms of B{n} with {k} factors and power up to {P}, {step} steps', kind=kind, n=n, k=k, m=m, step=step, P=P, d=0, r=r, p=p)
    for kind, n, k, r, p, P, base in (('gnf', 3, 1, 1, 0, 0, 1), ('gnf', 3, 0, 1, 3, 1, 1), ('dgnf', 3, 1, 1, 2, 0, 1), ('dgnf', 4, 0, 1, 3, 0, 1)):
        t('twice', base, f'every normal forms of B{n} with {k} and {k + 1} factors, 1 and 2 steps', kind=kind, n=n, k=k, r=r, p=p, P=P)
    for n, k, r, p, base in ((3, 1, 1, 3, 1), (3, 0, 1, 0, 1), (3, 2, 1, 2, 1), (4, 1, 1, 3, 0)):
        t('kinds', base, f'every two normal forms of B{n} with {k} factors, one of each kind, in one tracker', n=n, k=k, r=r, p=p)
    for kind, n, r, u, which, base in (('gnf', 3, 1, 4, 'new', 1), ('gnf', 4, 1, 1, 'new', 1), ('gnf', 4, 2, 1, 'old', 1), ('dgnf', 3, 1, 4, 'new', 1), ('dgnf', 4, 2, 2, 'new', 1), ('gnf', 3, 1, 4, 'old', 1), ('dgnf', 5, 1, 1, 'new', 1), ('gnf', 4, 1, 2, 'old', 0), ('gnf', 4, 1, 2, 'new', 0)):
        t('bootstrap', base, f'all normal forms of B{n} up to length {u}, p = 0, 2, 3', kind=kind, n=n, r=r, upto_length=u, which=which)
    for n, k, m, step, P, r, p, base in ((3, 1, 2, 1, 1, 1, 0, 1), (3, 2, 1, 2, 0, 1, 3, 1), (3, 0, 1, 2, 1, 1, 2, 1), (4, 1, 1, 1, 0, 2, 2, 1), (3, 1, 1, 3, 0, 1, 0, 1)):
        t('old_advance', base, f'every bucket of {m} normal forms of B{n} with {k} factors and power up to {P}, up to {step} steps', n=n, k=k, m=m, step=step, P=P, r=r, p=p)
    for which, k, step, p, base in (('new', 8, 1, 3, 1), ('old', 8, 1, 2, 1), ('old', 7, 3, 3, 0)):
        t('large', base, f'all normal forms of B3 with {k} factors and power 0 or 1, {step} steps', which=which, k=k, step=step, p=p)
    for n, k, l, P, r, p, base in ((3, 1, 1, 1, 1, 0, 1), (3, 2, 1, 0, 1, 3, 1), (4, 1, 1, 0, 1, 2, 0)):
        t('old_product', base, f'every normal forms of B{n} with {k} and {l} factors', n=n, k=k, l=l, P=P, r=r, p=p)
    for n, k, r, p in ((3, 3, 1, 0), (3, 5, 1, 3)):
        t('substrings', 1, f'every normal form of B{n} with {k} factors', n=n, k=k, r=r, p=p)
    return add_sequence(T, 's04', 'advance-gnf-3-0-1-2-0-1', 'advance-dgnf-3-1-1-2-0-1', 'advance-gnf-3-1-1-1-0-2', 'advance-dgnf-3-1-2-1-0-1', 'old_advance-3-0-1-2-1-1-2', 'advance-gnf-3-0-1-1-0-2')
