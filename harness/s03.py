"""S03: weighted strategies keep what they promise."""
from fractions import Fraction

from .common import Task, conc
from .s02 import parts
from .track import Fixed, NoRand, Rand, braids, content, groups, marks, offer, outcomes, tracker, weigher

OUTSIDE = 'larger buckets and longer streams than the stated bounds; rounding of floating point weights'
ASSUMPTIONS = ['weights are non-negative reals or integers, computed with exactly; comparisons allow an error of 10^-6', 'random() is any real in [0, 1); a uniform integer is any integer of its range, with equal probability']


EPS = Fraction(1, 10**6)


def weights(h, m, ints=0, real=False):
    """Weights that are exact in floating point, or any reals of moderate size."""
    return [h.fin(f'w{i}', 0, ints) if ints else h.real(f'w{i}', 0, 1000) if real else h.int(f'w{i}', 0, 2**20) for i in range(m)]


def near(h, a, b):
    return h.all([a - b <= EPS, b - a <= EPS])


def ids(t, tag=(2, 1)):
    return [int(conc(im[0, 0, 0])) - 1 for _, im, _ in content(t, tag)]


def offered(h, method, cap, m, rand, ws, gs):
    bs, A = braids(3, 2, m), marks(m)
    t = tracker(method, cap, rand, weigher(ws, bs))
    offer(t, bs, A, gs)
    return t


def own(h, t, ws):
    """Every position has its own weight, and the totals are exact."""
    got = ids(t)
    h.check('different items', len(got) == len(set(got)))
    h.check('their own weights', h.all([near(h, w, ws[i]) for i, (_, _, w) in zip(got, content(t, (2, 1)))]))
    b = t.buckets[(2, 1)]
    h.check('count', b.reservoir_count == len(ws))
    h.check('total weight', near(h, b.reservoir_weight, sum(ws)))


def evict(h, cap, m, ints=0):
    """The kept items are the heaviest ones, and no item displaces one of the same weight."""
    ws = weights(h, m, ints)
    t = offered(h, 'EvictMin', cap, m, NoRand(), ws, groups(h, m, 'cut') if m <= 4 else [list(range(m))])
    got = ids(t)
    h.check('how many', len(got) == min(cap, m))
    out = [i for i in range(m) if i not in got]
    h.check('heaviest', h.all([ws[i] >= ws[j] for i in got for j in out]))
    # the last item came in only by being strictly heavier than one that is out
    if m - 1 in got and out:
        h.check('ties', h.any([ws[m - 1] > ws[j] for j in out]))
    own(h, t, ws)


def fill(h, method, cap, m, ints=0):
    ws = weights(h, m, ints)
    t = offered(h, method, cap, m, NoRand(), ws, groups(h, m))
    h.check('all kept', ids(t) == list(range(m)))
    own(h, t, ws)


def chao(h, cap, m, ints=0, ws=None):
    """The m-th item enters with probability min(1, cap * weight / total weight), in a uniform place."""
    early = (lambda: Fixed(5)) if ws else lambda: Rand(h, 'early')
    gs = parts(m - 1) if ws else [list(range(m - 1))]
    ws = ws or weights(h, m, ints, True)
    bs, A = braids(3, 2, m), marks(m)

    class Both:
        def __init__(self, last):
            self.now, self.last = early(), last

        def __getattr__(self, name):
            return getattr(self.now, name)
    states = []

    def run(last):
        r = Both(last)
        t = tracker('AChao', cap, r, weigher(ws, bs))
        offer(t, bs, A, gs)
        states.append(ids(t))
        r.now = last
        offer(t, bs, A, [[m - 1]])
        own(h, t, ws)
        return ids(t)
    res = outcomes(h, run)
    state = states[0]
    h.check('earlier items', all(s == state for s in states) and len(set(state)) == cap)
    prob = {}
    for out, p, us in res:
        h.check('one continuous draw', len(us) <= 1)
        changed = [i for i in range(cap) if out[i] != state[i]]
        h.check('only the new item enters', len(out) == cap and len(changed) <= 1 and all(out[i] == m - 1 for i in changed))
        key = changed[0] if changed else None
        prob[key] = prob.get(key, 0) + p
    us = [u for _, _, us in res for u in us]
    total = sum(ws)
    if None in prob:
        h.check('kept out', len(prob) == 1)
        # without a draw the item may be kept out only if it is weightless
        h.check('threshold', us[0] * total + EPS >= cap * ws[m - 1] if us else h.eq(ws[m - 1], 0))
    else:
        h.check('place', all(prob.get(i, 0) == Fraction(1, cap) for i in range(cap)))
        h.check('threshold', us[0] * total <= cap * ws[m - 1] + EPS if us else total <= cap * ws[m - 1])


def pattern(m, scale):
    return [(i * 29 + 11) % 61 * scale for i in range(m)]


def lot(h, cap, m, scale, at):
    """The last of many items of fixed weights, one of which (or the last) is arbitrary."""
    ws = pattern(m, scale)
    ws[at] = h.real('w', 0, 1000)
    chao(h, cap, m, ws=ws)


def many(h, method, cap, m, scale):
    """Many items of fixed weights and one arbitrary one, in batches of several sizes."""
    ws = pattern(m, scale)
    at = conc(h.fin('at', sorted({0, cap - 1, min(cap, m - 1), m // 2, m - 1})))
    ws[at] = h.int('w', 0, 2**20)
    t = offered(h, method, cap, m, NoRand(), ws, parts(m, (conc(h.fin('size', [1, 3, 64])), 7)))
    got = ids(t)
    out = [i for i in range(m) if i not in got]
    h.check('how many', len(got) == min(cap, m))
    if method == 'EvictMin':
        h.check('heaviest', h.all([ws[i] >= ws[j] for i in got for j in out]))
    else:
        h.check('the first', got == list(range(min(cap, m))))
    own(h, t, ws)


def stream(h, method, cap, m, ints):
    """Any draws and any weights: different offered items, with their own weights and exact totals."""
    ws = weights(h, m, ints)
    t = offered(h, method, cap, m, Rand(h), ws, groups(h, m))
    h.check('how many', len(ids(t)) == min(cap, m))
    own(h, t, ws)


def interleaved(h, method, cap, m, ints=0):
    """Buckets of several tags, in several trackers, do not influence each other."""
    for name in ('first', 'second'):
        kinds = [conc(h.fin(f'{name}kind{i}', 0, 1)) for i in range(m)]
        ws = [h.fin(f'{name}w{i}', 0, ints) if ints else h.int(f'{name}w{i}', 0, 2**20) for i in range(m)]
        pool = [braids(3, 1, m), braids(3, 2, m)]
        bs, A = [pool[k][i] for i, k in enumerate(kinds)], marks(m)
        t = tracker(method, cap, Rand(h, name), weigher(ws, bs))
        offer(t, bs, A, [[i] for i in range(m)] if name == 'first' else [list(range(m))])
        h.check('the tags', sorted(t.buckets) == sorted({(k + 1, 1) for k in kinds}))
        for k in set(kinds):
            tag, mine = (k + 1, 1), [i for i in range(m) if kinds[i] == k]
            got = ids(t, tag)
            h.check('how many', len(got) == min(cap, len(mine)) == len(set(got)) and set(got) <= set(mine))
            out = [i for i in mine if i not in got]
            if method == 'EvictMin':
                h.check('heaviest', h.all([ws[i] >= ws[j] for i in got for j in out]))
            if method == 'GreedyFirst':
                h.check('first', got == mine[:cap])
            b = t.buckets[tag]
            h.check('count', b.reservoir_count == len(mine))
            h.check('total weight', near(h, b.reservoir_weight, sum(ws[i] for i in mine)))
            h.check('their own weights', h.all([near(h, w, ws[i]) for i, (_, _, w) in zip(got, content(t, tag))]))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for cap, m, ints, base in ((1, 2, 0, 1), (1, 4, 0, 1), (2, 3, 0, 1), (2, 4, 0, 1), (2, 5, 0, 1), (3, 5, 0, 1), (3, 4, 0, 1), (4, 4, 0, 1), (2, 5, 2, 1), (3, 6, 0, 0), (2, 6, 0, 0)):
        t('evict', base, f'capacity {cap}, {m} items of any integer weight up to 2^20' + (f' among 0..{ints}' if ints else ''), cap=cap, m=m, ints=ints)
    for method in ('AChao', 'EvictMin', 'Uniform', 'GreedyFirst'):
        for cap, m in ((1, 1), (3, 3), (4, 2)):
            t('fill', 1, f'capacity {cap}, {m} items of any integer weight up to 2^20', method=method, cap=cap, m=m)
    for cap, m, ints, base in ((1, 2, 0, 1), (2, 3, 0, 1), (1, 3, 2, 1), (2, 4, 1, 1), (3, 4, 0, 1), (1, 3, 0, 1), (2, 4, 0, 0)):
        t('chao', base, f'capacity {cap}, item {m}, any weights' + (f' among 0..{ints}' if ints else ''), cap=cap, m=m, ints=ints)
    for cap, m, scale, at in ((7, 30, 1, 29), (7, 30, 1, 3), (1, 40, 3, 39), (12, 50, 2, 49), (12, 50, 2, 20)):
        t('lot', 1, f'capacity {cap}, item {m} after a fixed stream in which the weight of item {at} is arbitrary', cap=cap, m=m, scale=scale, at=at)
    for method, cap, m, scale in (('EvictMin', 7, 30, 1), ('EvictMin', 1, 24, 2), ('EvictMin', 20, 48, 1), ('GreedyFirst', 7, 30, 1), ('Uniform', 40, 40, 1), ('AChao', 40, 40, 1)):
        t('many', 1, f'capacity {cap}, {m} items of fixed weights, one replaced by any integer up to 2^20', method=method, cap=cap, m=m, scale=scale)
    for method in ('AChao', 'Uniform', 'GreedyFirst'):
        for cap, m, ints in ((1, 3, 2), (2, 4, 1)):
            t('stream', 1, f'capacity {cap}, {m} items, weights among 0..{ints}', method=method, cap=cap, m=m, ints=ints)
    for method, cap, m, ints, base in (('EvictMin', 1, 3, 0, 1), ('EvictMin', 2, 3, 0, 1), ('GreedyFirst', 1, 3, 0, 1), ('AChao', 1, 2, 2, 1), ('Uniform', 1, 2, 2, 1), ('EvictMin', 1, 4, 0, 0), ('AChao', 2, 3, 1, 0)):
        t('interleaved', base, f'two trackers, two buckets each in use, capacity {cap}, {m} items each', method=method, cap=cap, m=m, ints=ints)
    return T
