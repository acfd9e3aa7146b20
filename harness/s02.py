"""S02: reservoir sampling keeps a uniform sample."""
from fractions import Fraction

from .common import Task, conc, add_sequence, sequence
from .track import Fixed, NoRand, Rand, braids, content, groups, marks, offer, older, outcomes, same_image, tracker

OUTSIDE = 'larger buckets and longer streams than the stated bounds; the quality of the generator of random numbers'
ASSUMPTIONS = ['random() is any real in [0, 1); a uniform integer is any integer of its range, with equal probability',
               'uniformity of the whole sample follows from that of each step by induction on the number of items']
EPS = Fraction(1, 10**9)


def make(kind, cap, rand):
    return older(cap, rand) if kind == 'older' else tracker(kind, cap, rand)


def ids(t, tag):
    return [int(conc(im[0, 0, 0])) - 1 for _, im, _ in content(t, tag)]


def fill(h, kind, cap, m):
    """Until the bucket is full everything is kept, in order, without randomness."""
    bs, A = braids(3, 2, m), marks(m)
    t = make(kind, cap, NoRand())
    offer(t, bs, A, groups(h, m))
    h.check('kept', ids(t, (2, 1)) == list(range(m)) and [b for b, _, _ in content(t, (2, 1))] == bs)


def greedy(h, kind, cap, m):
    """The greedy strategy keeps exactly the first items."""
    bs, A = braids(3, 2, m), marks(m)
    t = older(cap, None) if kind == 'older' else tracker('GreedyFirst', cap, NoRand())
    offer(t, bs, A, groups(h, m))
    h.check('the first', ids(t, (2, 1)) == list(range(min(m, cap))) and [b for b, _, _ in content(t, (2, 1))] == bs[:cap])


def parts(m, sizes=(1, 5, 2, 17, 9)):
    """The items 0..m-1 in consecutive batches of several sizes."""
    out, k, i = [], 0, 0
    while i < m:
        out.append(list(range(i, min(m, i + sizes[k % len(sizes)]))))
        i, k = out[-1][-1] + 1, k + 1
    return out


def step(h, kind, cap, m, lot=0):
    """The m-th item enters with probability cap/m, in a uniform place, whatever happened before."""
    bs, A = braids(3, 2, m), marks(m)
    gs = parts(m - 1) if lot else groups(h, m - 1)
    early = (lambda: Fixed(conc(h.fin('seed', 1, lot)))) if lot else lambda: Rand(h, 'early')

    class Both:
        """Symbolic draws for the earlier items, scripted ones for the last."""
        def __init__(self, last):
            self.now, self.last = early(), last

        def __getattr__(self, name):
            return getattr(self.now, name)

    def run(last):
        r = Both(last)
        t = make(kind, cap, r)
        offer(t, bs, A, gs)
        r.now = last
        offer(t, bs, A, [[m - 1]])
        return ids(t, (2, 1))
    # the state before the last item, reached with the same earlier draws
    t0r = early()
    t0 = make(kind, cap, t0r)
    offer(t0, bs, A, gs)
    state = ids(t0, (2, 1))
    h.check('full, without repetition', len(state) == cap == len(set(state)) and set(state) <= set(range(m - 1)))
    res = outcomes(h, run)
    prob = {}
    for out, p, us in res:
        h.check('size', len(out) == cap)
        h.check('one continuous draw', len(us) <= 1)
        changed = [i for i in range(cap) if out[i] != state[i]]
        h.check('only the new item enters', len(changed) <= 1 and all(out[i] == m - 1 for i in changed))
        key = changed[0] if changed else None
        prob[key] = prob.get(key, 0) + p
    us = [u for _, _, us in res for u in us]
    if not us:
        h.check('probability', all(prob.get(i, 0) == Fraction(1, m) for i in range(cap)))
    elif None in prob:
        h.check('kept out', len(prob) == 1)
        h.check('threshold', us[0] >= Fraction(cap, m) - EPS)
    else:
        h.check('place', all(prob.get(i, 0) == Fraction(1, cap) for i in range(cap)))
        h.check('threshold', us[0] <= Fraction(cap, m) + EPS)


def lot(h, kind, cap, m, seeds):
    """A long stream of fixed items with fixed draws, and any draws for the last of them."""
    step(h, kind, cap, m, seeds)


def batches(h, kind, cap, m, seeds):
    """The same draws give the same sample, in however large batches the items come."""
    bs, A = braids(3, 2, m), marks(m)
    s = conc(h.fin('seed', 1, seeds))
    one, many = make(kind, cap, Fixed(s)), make(kind, cap, Fixed(s))
    sizes = [conc(h.fin(f'size{i}', [1, 2, 31])) for i in range(3)]
    offer(one, bs, A, parts(m, tuple(sizes)))
    offer(many, bs, A, [[i] for i in range(m)])
    got = ids(one, (2, 1))
    h.check('batches do not matter', got == ids(many, (2, 1)))
    h.check('cap different items', len(set(got)) == len(got) == min(cap, m))
    h.check('their own images', [b for b, _, _ in content(one, (2, 1))] == [bs[i] for i in got])


def stream(h, kind, cap, m):
    """Whatever the draws, the bucket holds cap different offered items, each with its own image."""
    bs, A = braids(3, 2, m), marks(m)
    t = make(kind, cap, Rand(h))
    offer(t, bs, A, groups(h, m))
    got = ids(t, (2, 1))
    h.check('cap different items', len(got) == len(set(got)) == min(cap, m))
    h.check('their own images', [b for b, _, _ in content(t, (2, 1))] == [bs[i] for i in got])
    one = make(kind, cap, Rand(h))
    offer(one, bs, A, [[i] for i in range(m)])
    h.check('batches do not matter', ids(one, (2, 1)) == got)


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for kind in ('Uniform', 'older'):
        for cap, m, base in ((1, 1, 1), (3, 3, 1), (5, 4, 1), (8, 8, 0)):
            t('fill', base, f'capacity {cap}, {m} items in any batches', kind=kind, cap=cap, m=m)
        for cap, m, base in ((1, 2, 1), (1, 3, 1), (2, 3, 1), (2, 4, 1), (3, 4, 1), (1, 5, 1), (3, 5, 1), (2, 5, 1 if kind == 'Uniform' else 0), (4, 6, 0)):
            t('step', base, f'capacity {cap}, item {m}, any earlier draws and batches', kind=kind, cap=cap, m=m)
        for cap, m, base in ((1, 3, 1), (2, 4, 1), (3, 5, 1)):
            t('stream', base, f'capacity {cap}, {m} items in any batches', kind=kind, cap=cap, m=m)
    for kind in ('Uniform', 'older'):
        for cap, m, s in ((7, 40, 3), (1, 50, 2), (16, 17, 2), (20, 70, 2)) + (((1, 400, 1), (3, 260, 1)) if kind == 'Uniform' else ((1, 130, 1),)):
            t('lot', 1, f'capacity {cap}, item {m} with any draws after a fixed stream', kind=kind, cap=cap, m=m, seeds=s)
        t('batches', 1, 'capacity 12, 60 items in batches of several sizes, fixed draws', kind=kind, cap=12, m=60, seeds=2)
    for kind in ('GreedyFirst', 'older'):
        for cap, m, base in ((1, 3, 1), (2, 5, 1), (3, 3, 1), (4, 7, 1)):
            t('greedy', base, f'capacity {cap}, {m} items in any batches', kind=kind, cap=cap, m=m)
    return add_sequence(T, 's02', 'fill-Uniform-3-3', 'fill-older-3-3', 'greedy-GreedyFirst-1-3', 'step-Uniform-1-2', 'step-older-1-3')
