"""S01: every braid kept by a search tracker sits in the right bucket with its own image."""
import contextlib
import io

import numpy as np

from peyl import braidsearch, polymat
from peyl.braid import GNF, DGNF
from peyl.bucketing import Stats
from . import mats
from .common import Ctx, Task, conc, add_sequence, sequence
from .r03 import rep_of
from .track import NoRand, Rand, braids, content, groups, offer, older, same_image, tracker, weigher

OUTSIDE = 'larger buckets, longer streams and larger images than the stated bounds; rounding of floating point weights'
ASSUMPTIONS = ['random() is any real in [0, 1); a uniform integer is any integer of its range']
METHODS = ['GreedyFirst', 'Uniform', 'AChao', 'EvictMin']


def item_images(h, m, D, lo=-1, hi=1, proj=False):
    """m symbolic nonzero one by one images of width D, any entries in a range; proj: the lowest entry is nonzero."""
    a, A = mats.sym(h, 'x', (m, 1, 1, D), np.int64, lo, hi)
    for i in range(m):
        nz = [h.not_(h.eq(a[i][0][0][d], 0)) for d in range(D)]
        h.assume(nz[0] if proj else h.any(nz))
    return a, A


def shape_of(h, row, D):
    """Lowest degree and width of one image (made concrete)."""
    nz = [conc(h.ite(h.eq(row[d], 0), 0, 1)) for d in range(D)]
    ds = [d for d in range(D) if nz[d]]
    return ds[0], ds[-1] - ds[0] + 1


def check_bucket(h, got, cap, offered, a, want, exact=False):
    """The stored triples are offered triples of this bucket, each with its projectivised image and weight."""
    h.check('size', len(got) == min(cap, len(offered)))
    for b, im, w in got:
        mine = [k for k in offered if want[k][0] == b]
        h.check('offered to this bucket', len(mine) >= 1)
        ok = []
        for k in mine:
            low, width = want[k][1]
            ok.append(h.all([im.shape == (1, 1, width)] + [h.eq(im[0, 0, d], a[k][0][0][low + d]) for d in range(im.shape[-1])] + ([] if w is None else [h.eq(w, want[k][2])]))
                      if im.shape == (1, 1, width) else False)
        h.check('its own projectivised image and weight', h.any(ok))


def stream(h, method, cap, lens, D, drop=0):
    """Offer braids of given lengths with any images and weights; look at every bucket; discard one."""
    m = len(lens)
    bs = [b for k in sorted(set(lens)) for b in braids(3, k, lens.count(k))]
    bs = [bs.pop([x.canonical_length() for x in bs].index(k)) for k in lens]
    a, A = item_images(h, m, D)
    ws = [h.int(f'w{i}', 0, 2**20) for i in range(m)]
    rand = NoRand() if method in ('GreedyFirst', 'EvictMin') else Rand(h)
    t = tracker(method, cap, rand, weigher(ws, bs), other=(Stats.NonzeroTerms,))
    offer(t, bs, A, groups(h, m))
    want = [(bs[i], shape_of(h, a[i][0][0], D), ws[i]) for i in range(m)]
    tags = {}
    for i in range(m):
        tags.setdefault((lens[i], want[i][1][1]), []).append(i)
    h.check('the buckets', set(t.buckets) == set(tags) and len(t.buckets) == len(tags))
    for tag, ks in tags.items():
        got = content(t, tag)
        check_bucket(h, got, cap, ks, a, want)
        b = t.buckets[tag]
        h.check('tag', tuple(b.tag) == tag and b.capacity == cap and b.size() == len(got))
        h.check('count', b.reservoir_count == len(ks))
        h.check('total weight', h.eq(b.reservoir_weight, sum([ws[k] for k in ks])))
        if len(ks) <= cap:
            h.check('everything kept in order', [x for x, _, _ in got] == [bs[k] for k in ks])
    if drop:
        victim = sorted(tags)[0]
        before = {tag: [(b, im.copy()) for b, im, _ in content(t, tag)] for tag in tags}
        t.discard_bucket(victim)
        t.discard_bucket((99, 99))
        h.check('discarded', set(t.buckets) == set(tags) - {victim})
        for tag in set(tags) - {victim}:
            after = content(t, tag)
            h.check('others untouched', len(after) == len(before[tag]) and h.all([x[0] == y[0] and same_image(h, x[1], y[1]) for x, y in zip(after, before[tag])]))
        if len(tags[victim]) <= cap or method in ('GreedyFirst', 'EvictMin'):
            again = tags[victim]
            offer(t, bs, A, [[i] for i in again])
            got = content(t, victim)
            check_bucket(h, got, cap, again, a, want)
            h.check('as if never discarded', len(got) == min(cap, len(again)) and t.buckets[victim].reservoir_count == len(again) and h.eq(t.buckets[victim].reservoir_weight, sum([ws[k] for k in again])))


LARGE = [1, 127, -128, 2**15 - 1, 2**15, -2**15 - 1, 65536, 2**24 + 1, 2**31 - 1, 2**31, -2**31 - 1, 2**53 + 1, -2**62]
WEIGHTS = [0, 1, 0.1, 2**24 + 1, 2**31 + 1, 10**10 + 1, 2**53 - 1, 1e300, 1e-300]


def extreme(h, method, m):
    """Images and weights of any size, offered one by one or together."""
    bs = braids(3, 1, m)
    xs = [LARGE[conc(h.fin(f'x{i}', 0, len(LARGE) - 1))] if i < 2 else 3 for i in range(m)]
    ws = [float(WEIGHTS[conc(h.fin(f'w{i}', 0, len(WEIGHTS) - 1))]) if i == 1 else 5.0 for i in range(m)]
    a = [[[[3, x]]] for x in xs]
    t = older(m, None) if method == 'older' else tracker(method, m, NoRand(), weigher(ws, bs), other=(Stats.NonzeroTerms,))
    offer(t, bs, mats.array(a, (m, 1, 1, 2)), groups(h, m))
    got = content(t, (1, 2))
    h.check('all kept', [b for b, _, _ in got] == bs)
    for (b, im, w), x, v in zip(got, xs, ws):
        h.check('image', im.shape == (1, 1, 2) and h.eq(im[0, 0, 0], 3) and h.eq(im[0, 0, 1], x))
        h.check('weight', w is None or h.eq(w, v))


def table(h, cap, m, D):
    """The tables of statistics describe the buckets."""
    bs = braids(3, 1, m)
    a, A = item_images(h, m, D, 0, 2)
    ws = [h.fin(f'w{i}', 0, 3) for i in range(m)]
    t = tracker('GreedyFirst', cap, NoRand(), weigher(ws, bs), other=(Stats.NonzeroTerms, Stats.NFKind))
    offer(t, bs, A, [list(range(m))])
    widths = [shape_of(h, a[i][0][0], D)[1] for i in range(m)]
    df = t.stats()
    rows = {row.bucket: row for row in df.itertuples(index=False)}
    h.check('one row for each bucket', len(df) == len(rows) == len(set(widths)) and set(rows) == {(1, w) for w in widths})
    for w in set(widths):
        ks = [k for k in range(m) if widths[k] == w]
        row = rows[1, w]
        h.check('row', row.count == min(cap, len(ks)) and row.length == 1 and row.projlen == w and row.reservoir_count == len(ks))
        h.check('average kept', h.eq(row.reservoir_weight_avg * row.count, sum([ws[k] for k in ks[:cap]])) if row.count != 3 else True)
        h.check('average seen', h.eq(row.reservoir_weight_avg_seen * len(ks), sum([ws[k] for k in ks])) if len(ks) != 3 else True)
        st = t.bucket_stats((1, w))
        h.check('rows of the bucket', len(st) == min(cap, len(ks)) and list(st['braid']) == [bs[k] for k in ks[:cap]])
        for i, k in enumerate(ks[:cap]):
            nz = sum([h.ite(h.eq(a[k][0][0][d], 0), 0, 1) for d in range(D)])
            h.check('statistics', h.all([list(st['length'])[i] == 1, h.eq(list(st['projlen'])[i], w), h.eq(list(st['nz_terms'])[i], nz), list(st['nf'])[i] == 'GNF']))
    h.raises(ValueError, lambda: t.bucket_stats((7, 7)))


def valid(h, which, r, p, k, m):
    """Validation accepts buckets with true images and reports a wrong one."""
    C = Ctx(h, 3, 'gnf')
    bs = [C.nf(f'b{i}', k, power=0)[0] for i in range(m)]
    bs = [GNF(3, 0, tuple(conc(f) for f in b.factors)) for b in bs]
    h.assume(len(set(bs)) == m)
    if which == 'older':
        rep = rep_of('summand', 3, r, p)
        A = braidsearch.evaluate_braids_of_same_length(rep, bs)
        t = older(m, None, rep=rep)
    else:
        rep = rep_of('rep', 3, r, p)
        A = rep.polymat_evaluate_braids_of_same_length(bs)
        t = tracker('GreedyFirst', m, NoRand(), rep=rep)
    t.add_braids_images(bs, A)
    with contextlib.redirect_stdout(io.StringIO()):
        h.check('sound', t.valiate_buckets() == 'All bucket entries are sound.')
        tag = sorted(t.buckets)[0]
        xs, im = t.bucket_braids_images(tag)
        j = conc(h.fin('j', 0, m - 1)) % len(xs)
        delta = h.fin('delta', -2, 2)
        old = im[j].copy()
        im[j, 0, 0, 0] = im[j, 0, 0, 0] + delta
        r = t.valiate_buckets()
    wrong = conc(h.ite(h.eq(delta, 0), 0, 1))
    if not wrong:
        h.check('sound', r == 'All bucket entries are sound.')
    else:
        h.check('the wrong one is reported', type(r) is tuple and r[0] == xs[j] and same_image(h, r[1], old) and same_image(h, r[2], im[j]))


def hashes(h, m, D):
    """Braids with equal images, and no others, are listed together."""
    bs = braids(3, 1, m)
    xs = [[conc(h.fin(f'x{i}{d}', 0 if 0 < d < D - 1 else 1, 2)) for d in range(D)] for i in range(m)]
    A = np.array([[[x]] for x in xs])
    t = tracker('GreedyFirst', m, NoRand())
    t.add_braids_images(bs, A)
    got = t.hash_bucket((1, D))
    want = {}
    for b, x in zip(bs, xs):
        want.setdefault(tuple(x), []).append(b)
    h.check('classes', sorted(map(sorted, got.values())) == sorted(map(sorted, want.values())))


def old_stream(h, cap, lens, D, rand, keys=('length', 'projlen'), crit=0, dup=0):
    """The older tracker: any images, symbolic draws, a criterion, repeated braids."""
    m = len(lens)
    bs = [b for k in sorted(set(lens)) for b in braids(3, k, lens.count(k))]
    bs = [bs.pop([x.canonical_length() for x in bs].index(k)) for k in lens]
    if dup:
        bs[m - 1] = bs[0]
    a, A = item_images(h, m, D, proj=True)
    if dup:
        for d in range(D):
            h.assume(h.eq(a[0][0][0][d], a[m - 1][0][0][d]))
    t = older(cap, Rand(h) if rand else None, keys, criterion=(lambda x: x['nz_terms'] >= 2) if crit else None)
    offer(t, bs, A, groups(h, m))
    want = [(bs[i], shape_of(h, a[i][0][0], D), None) for i in range(m)]
    nz = [sum(conc(h.ite(h.eq(a[i][0][0][d], 0), 0, 1)) for d in range(D)) for i in range(m)]
    tags = {}
    for i in range(m):
        if not crit or nz[i] >= 2:
            st = {'length': lens[i], 'projlen': want[i][1][1], 'nz_terms': nz[i]}
            tags.setdefault(tuple(st[k] for k in keys), []).append(i)
    h.check('the buckets', set(t.buckets) == set(tags) and len(t.buckets) == len(tags))
    for tag, ks in tags.items():
        got = content(t, tag)
        kept = [k for k in ks if not (dup and k == m - 1 and 0 in ks)] if not rand or len(ks) <= cap else ks
        if dup and rand and len(ks) > cap:
            h.check('size', 1 <= len(got) <= cap)
        else:
            check_bucket(h, got, cap, kept, a, want)
        if not rand or len(kept) <= cap and kept == ks:
            h.check('the first ones, in order', [x for x, _, _ in got] == [bs[k] for k in kept[:cap]])
        if not dup:
            h.check('count', t.bucket_reservoir_counts[tag] == len(ks))
    if tags:
        df = t.stats()
        rows = {row.bucket: row for row in df.itertuples(index=False)}
        h.check('one row for each bucket', len(df) == len(rows) and set(rows) == set(tags))
        for tag in tags:
            h.check('row', rows[tag].count == len(content(t, tag)) and all(getattr(rows[tag], k) == v for k, v in zip(keys, tag)))
            if rand:
                h.check('count in the table', rows[tag].reservoir_count == t.bucket_reservoir_counts[tag])
        res = {row.bucket: row for row in t.stats_reservoir().itertuples(index=False)}
        h.check('reservoir table', set(res) == set(tags) and all(res[tag].reservoir_count == t.bucket_reservoir_counts[tag] for tag in tags))
        victim = sorted(tags)[0]
        before = {tag: [(b, im.copy()) for b, im, _ in content(t, tag)] for tag in tags}
        t.discard_bucket(victim)
        h.check('discarded', set(t.buckets) == set(tags) - {victim})
        for tag in set(tags) - {victim}:
            after = content(t, tag)
            h.check('others untouched', len(after) == len(before[tag]) and h.all([x[0] == y[0] and same_image(h, x[1], y[1]) for x, y in zip(after, before[tag])]))
        h.raises(ValueError, lambda: t.bucket_stats(victim))
        again = tags[victim]
        if not dup and (not rand or len(again) <= cap):
            offer(t, bs, A, [[i] for i in again])
            got = content(t, victim)
            check_bucket(h, got, cap, again, a, want)
            h.check('as if never discarded', [x for x, _, _ in got] == [bs[k] for k in again[:cap]] and t.bucket_reservoir_counts[victim] == len(again))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for method in METHODS:
        for cap, lens, D, drop, base in ((2, (1, 1), 2, 0, 1), (1, (1, 2, 1), 1, 1, 1), (1, (1, 1), 3, 0, 1), (2, (1, 2, 1), 2, 1, 1), (2, (2, 2, 2), 1, 0, 1), (1, (1, 1, 1), 2, 0, 0), (2, (1, 1, 1, 1), 1, 0, 0), (2, (0, 0), 2, 0, 1)):
            t('stream', base, f'capacity {cap}, braids of lengths {lens}, any images of width {D} with entries -1..1, any weights up to 2^20', method=method, cap=cap, lens=lens, D=D, drop=drop)
    for method in METHODS + ['older']:
        t('extreme', 1, 'images with one entry of 1 to 63 bits, weights from 1e-300 to 1e300, in any batches', method=method, m=3)
    for cap, m, D, base in ((2, 2, 2, 1), (1, 2, 2, 1), (2, 3, 1, 1), (2, 3, 2, 0)):
        t('table', base, f'capacity {cap}, {m} braids, any images of width {D} with entries 0..2, weights 0..3', cap=cap, m=m, D=D)
    for which in ('new', 'older'):
        for r, p, k, m, base in ((1, 0, 1, 2, 1), (1, 3, 2, 1, 1), (0, 2, 1, 2, 1), (0, 0, 1, 1, 1), (0, 3, 2, 1, 1), (1, 2, 1, 3, 0)):
            t('valid', base, f'{m} normal forms of B3 with {k} factors, one image changed', which=which, r=r, p=p, k=k, m=m)
    for m, D in ((2, 1), (3, 1), (2, 2), (3, 2)):
        t('hashes', 1, f'{m} images of width {D} with entries 0..2', m=m, D=D)
    for cap, lens, D, rand, keys, crit, dup, base in (
            (2, (1, 1), 2, 0, ('length', 'projlen'), 0, 0, 1), (1, (1, 2, 1), 2, 0, ('length', 'projlen'), 0, 0, 1), (1, (1, 1, 1), 1, 1, ('length', 'projlen'), 0, 0, 1),
            (2, (1, 1, 1), 2, 1, ('length', 'projlen'), 0, 0, 1), (2, (1, 2), 2, 0, ('projlen', 'length'), 0, 0, 1), (2, (1, 1), 3, 0, ('length', 'projlen', 'nz_terms'), 0, 0, 1),
            (2, (1, 1), 3, 0, ('length', 'projlen'), 1, 0, 1), (2, (1, 1, 1), 2, 0, ('length', 'projlen'), 0, 1, 1), (3, (1, 1, 1), 2, 1, ('length', 'projlen'), 0, 1, 1)):
        t('old_stream', base, f'capacity {cap}, braids of lengths {lens}, any images of width {D} with entries -1..1', cap=cap, lens=lens, D=D, rand=rand, keys=keys, crit=crit, dup=dup)
    return add_sequence(T, 's01', 'stream-GreedyFirst-1-(1,2,1)-1-1', 'stream-EvictMin-1-(1,2,1)-1-1', "old_stream-2-(1,1)-2-0-('length','projlen')-0-0", 'hashes-2-1', 'stream-Uniform-2-(2,2,2)-1-0')
