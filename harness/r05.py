"""R05: statistics of packed matrices."""
import itertools

import numpy as np

from peyl import bucketing, braidsearch, polymat
from peyl.bucketing import Stats
from peyl.braid import GNF, DGNF
from peyl.jonesrep import JonesCellRep
from .common import Task, conc, add_sequence, sequence
from . import mats
from .mats import at, sym

OUTSIDE = 'larger shapes than the stated bounds; 64-bit overflow; rounding in the floating-point rank of larger or bigger matrices'
ASSUMPTIONS = ['entries of 64-bit arrays are treated as mathematical integers',
               'numpy.linalg.matrix_rank is taken to be the exact rank (of matrices up to 2 x 2)']


def spec(h, label, live, count, D, lo, hi, pl, el, gap, nz):
    """Every statistic equals its definition, for one matrix."""
    zero = h.not_(h.any(live))
    h.check(label + ': nonzero terms', h.eq(nz, count))
    for v in range(D):
        low = h.all([live[v]] + [h.not_(l) for l in live[:v]])
        h.check(label + ': lowest degree', h.implies(low, h.eq(lo, v)))
        for w in range(v, D):
            top = h.all([live[w]] + [h.not_(l) for l in live[w + 1:]])
            both = h.all([low, top])
            h.check(label + ': highest degree', h.implies(top, h.eq(hi, w)))
            h.check(label + ': projective length', h.implies(both, h.eq(pl, w - v + 1)))
            h.check(label + ': effective length', h.implies(both, h.eq(el, w - v)))
            h.check(label + ': rho gap', h.implies(both, h.eq(2 * gap, w - v)))
    h.check(label + ': zero matrix', h.implies(zero, h.all([h.eq(pl, 0), h.eq(el, 0), h.eq(nz, 0)])))


def measured(A):
    return [polymat.valmin(A), polymat.degmax(A), polymat.projlen(A), polymat.efflen(A), polymat.rhogap(A), polymat.nz_terms(A)]


def number(h, a, shape):
    return sum([h.ite(h.eq(at(a, ix), 0), 0, 1) for ix in itertools.product(*map(range, shape))])


def stats(h, prefix, I, J, D, kind='int64'):
    a, A = sym(h, 'a', (*prefix, I, J, D), np.dtype(kind), *((None, None) if kind == 'int64' else (-2, 2)))
    M = measured(A)
    for m in M:
        h.check('shape', tuple(np.shape(m)) == tuple(prefix))
    for ix in itertools.product(*map(range, prefix)):
        b = at(a, ix)
        one = [m[ix] if prefix else m for m in M]
        spec(h, 'statistics', mats.degrees(h, b, I, J, D), number(h, b, (I, J, D)), D, *one)
        if prefix:
            alone = measured(A[ix])
            nonzero = h.any(mats.degrees(h, b, I, J, D))
            h.check('elementwise', h.all([h.eq(alone[k], one[k]) for k in (2, 3, 5)]))
            h.check('elementwise degrees', h.implies(nonzero, h.all([h.eq(alone[k], one[k]) for k in (0, 1, 4)])))


def large(h, m, I, J, D, kind='int64'):
    """Larger batches of fixed integers, mostly zeros, with one arbitrary entry."""
    at1 = conc(h.fin('at', 0, m - 1))
    dt = conc(h.fin('dt', [0, D // 2, D - 1]))
    a = [[[[0 if (i + j + k + d * d) % 4 or not 2 <= d <= D - 2 - i % 3 else i + 1 for d in range(D)] for k in range(J)] for j in range(I)] for i in range(m)]
    a[at1][I - 1][0][dt] = h.int('a') if kind == 'int64' else h.int('a', -100, 100)
    A = mats.array(a, (m, I, J, D), np.dtype(kind))
    M = measured(A)
    for i in range(m):
        spec(h, 'statistics', mats.degrees(h, a[i], I, J, D), number(h, a[i], (I, J, D)), D, *[x[i] for x in M])


def wide(h, m, D):
    """Matrices of very many coefficients, of which a few are not zero."""
    ats = [0, 1, D // 2 + 1, D - 1] if D < 1000 else [0, D - 2, D - 1]
    A = np.zeros((m, 1, 1, D), dtype=np.int64)
    ends = []
    for i in range(m):
        if i in (0, m - 1):
            u, v = (ats[conc(h.fin(f'{s}{i}', 0, len(ats) - 1))] for s in 'uv')
        else:
            u, v = 1, D // 2
        A[i, 0, 0, u] += 1
        A[i, 0, 0, v] += 2
        ends.append((min(u, v), max(u, v)))
    M = measured(A)
    for i, (u, v) in enumerate(ends):
        got = [x[i] for x in M]
        h.check('statistics', h.all([h.eq(a, b) for a, b in zip(got, [u, v, v - u + 1, v - u, (v - u) / 2, 1 if u == v else 2])]))
    for x, y in zip(measured(A[0]), M):
        h.check('alone', h.eq(x, y[0]))


def dense(h, I, J, D, kind):
    """Matrices with very many nonzero coefficients."""
    k = conc(h.fin('k', sorted({0, 1, D // 2, D - 1})))
    A = np.ones((2, I, J, D), dtype=np.dtype(kind))
    A[1, :, :, k:] = 0
    M = measured(A)
    h.check('all', [int(x[0]) for x in (M[0], M[1], M[2], M[3], M[5])] == [0, D - 1, D, D - 1, I * J * D])
    h.check('some', int(M[5][1]) == I * J * k and int(M[2][1]) == k)


def padding(h, prefix, I, J, D, L):
    """Padding with zeros changes no statistic of a nonzero matrix."""
    a, A = sym(h, 'a', (*prefix, I, J, D))
    for ix in itertools.product(*map(range, prefix)):
        h.assume(h.any(mats.degrees(h, at(a, ix), I, J, D)))
    for x, y in zip(measured(A), measured(polymat.zeropad(A, L))):
        h.check('unchanged by padding', h.eq(x, y))


def rank2(h, m):
    """The rank of a matrix with at most two rows and columns."""
    I, J = len(m), len(m[0])
    nz = h.any([h.not_(h.eq(x, 0)) for r in m for x in r])
    full = h.not_(h.eq(m[0][0] * m[1][1] - m[0][1] * m[1][0], 0)) if (I, J) == (2, 2) else False
    return h.ite(full, 2, h.ite(nz, 1, 0))


def projrank(h, prefix, I, J, D, terms):
    a, A = sym(h, 'a', (*prefix, I, J, D), lo=-1, hi=1)
    idx = list(itertools.product(*map(range, prefix)))
    for ix in idx:
        h.assume(mats.degrees(h, at(a, ix), I, J, D)[0])
    R = polymat.projrank(A, terms)
    for ix in idx:
        b = at(a, ix)
        want = sum([rank2(h, [[b[i][j][d] for j in range(J)] for i in range(I)]) for d in range(min(terms, D))])
        h.check('projrank', h.eq(R[ix] if prefix and terms else R, want))


def refusal(h, I, J, D):
    a, A = sym(h, 'a', (I, J, D))
    live = mats.degrees(h, a, I, J, D)
    ok = h.any([live[0], h.not_(h.any(live))])
    h.check('projrank wants a constant term', h.iff(h.raises(AssertionError, lambda: polymat.projrank(A, 1)), h.not_(ok)))
    h.check('a negative number of terms is refused', h.raises(AssertionError, lambda: polymat.projrank(A, -1)))


def braids(h, n, lens):
    """Braids with given numbers of factors; the statistics only look at those."""
    out = []
    for i, k in enumerate(lens):
        cls = (GNF, DGNF)[conc(h.fin(f'cls{i}', 0, 1))]
        out.append(cls(n, h.int(f'p{i}'), (1,) * k))
    return out


def columns(h, lens, I, J, D):
    """The statistics used by the search."""
    bs = braids(h, 3, lens)
    a, A = sym(h, 'a', (len(lens), I, J, D))
    rep = JonesCellRep(3, 1)
    names = [Stats.NFKind.calculate(rep, bs, A), Stats.CanonicalLength.calculate(rep, bs, A)]
    pl, nz = Stats.ProjectiveLength.calculate(rep, bs, A), Stats.NonzeroTerms.calculate(rep, bs, A)
    h.check('names', [Stats.NFKind.name, Stats.CanonicalLength.name, Stats.ProjectiveLength.name, Stats.NonzeroTerms.name] == ['nf', 'length', 'projlen', 'nz_terms'])
    for i, k in enumerate(lens):
        h.check('kind', names[0][i] == ('GNF' if type(bs[i]) is GNF else 'DGNF'))
        h.check('length', h.eq(names[1][i], k))
        live = mats.degrees(h, a[i], I, J, D)
        h.check('nonzero terms', h.eq(nz[i], number(h, a[i], (I, J, D))))
        for v in range(D):
            for w in range(v, D):
                both = h.all([live[v], live[w]] + [h.not_(l) for l in live[:v] + live[w + 1:]])
                h.check('projective length', h.implies(both, h.eq(pl[i], w - v + 1)))


def frames(h, lens, J, D, older):
    """The tables of statistics shown for braids and for whole trackers."""
    n = 3
    bs = [GNF(n, h.int(f'p{i}'), (1,) * k) for i, k in enumerate(lens)]
    N = len(lens)
    a, A = sym(h, 'a', (N, 1, J, D), lo=-1, hi=1)
    live = [mats.degrees(h, a[i], 1, J, D) for i in range(N)]
    for i in range(N):
        h.assume(live[i][0] if older else h.any(live[i]))
    if older:
        t = braidsearch.Tracker(rep=braidsearch.JonesSummand(n, 1, 5), bucket_size=2, bucket_keys=('length', 'projlen'), criterion=lambda x: x['length'] >= 0)
    else:
        t = bucketing.Tracker(rep=JonesCellRep(n, 1), bucket_capacity=2, bucket_braidstats=[Stats.CanonicalLength, Stats.ProjectiveLength], other_braidstats=[Stats.NonzeroTerms, Stats.NFKind])
    df = t.braid_image_stats(bs, A)
    h.check('rows', len(df) == N)
    for i, k in enumerate(lens):
        h.check('length', h.eq(df['length'][i], k))
        h.check('nonzero terms', h.eq(df['nz_terms'][i], number(h, a[i], (1, J, D))))
        if older:
            h.check('rank', h.eq(df['projrank2'][i], sum([h.ite(h.any([h.not_(h.eq(a[i][0][j][d], 0)) for j in range(J)]), 1, 0) for d in range(min(2, D))])))
        else:
            h.check('braid and kind', df['braid'][i] is bs[i] and df['nf'][i] == 'GNF')
        for v in range(D):
            for w in range(v, D):
                both = h.all([live[i][v], live[i][w]] + [h.not_(l) for l in live[i][:v] + live[i][w + 1:]])
                h.check('projective length', h.implies(both, h.eq(df['projlen'][i], w - v + 1)))
                if older:
                    h.check('degrees', h.implies(both, h.all([h.eq(df['valmin'][i], v), h.eq(df['degmax'][i], w)])))
                    h.check('gaps', h.implies(both, h.all([h.eq(2 * df['rhogap'][i], w - v), h.eq(2 * max(k, 1) * df['rhogap/length'][i], w - v)])))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for pre, I, J, D, base in (((), 1, 1, 1, 1), ((), 1, 1, 4, 1), ((), 2, 2, 3, 1), ((), 3, 3, 4, 1), ((2,), 1, 2, 3, 1), ((3,), 2, 2, 3, 1), ((2, 2), 1, 1, 3, 1), ((2,), 2, 2, 5, 1), ((3,), 3, 3, 5, 0)):
        t('stats', base, f'shape {(*pre, I, J, D)}, any integer entries', prefix=pre, I=I, J=J, D=D)
    for pre, I, J, D in (((), 2, 1, 3), ((2,), 1, 2, 2), ((), 1, 1, 4)):
        for kind in ('int32', 'int8'):
            t('stats', 1, f'shape {(*pre, I, J, D)}, entries -2..2, {kind}', prefix=pre, I=I, J=J, D=D, kind=kind)
    for m, I, J, D in ((1, 6, 6, 12), (20, 2, 2, 7), (2, 1, 1, 70), (6, 3, 3, 20), (1, 8, 8, 5)):
        t('large', 1, f'{m} {I} x {J} matrices of {D} coefficients, fixed integers with one arbitrary entry', m=m, I=I, J=J, D=D)
    for m, D in ((2, 300), (1, 2100)):
        t('wide', 1, f'{m} 1 x 1 matrices of {D} coefficients of which one or two out of 3 or 4 are not zero', m=m, D=D)
    for I, J, D, kind in ((10, 10, 30, 'int64'), (20, 20, 170, 'int64'), (15, 15, 4, 'int32')):
        t('dense', 1, f'{I} x {J} matrices of {D} coefficients, all nonzero up to one of 4 degrees', I=I, J=J, D=D, kind=kind)
    for pre, I, J, D, L in (((), 1, 1, 2, 4), ((), 2, 2, 3, 4), ((2,), 1, 2, 2, 3), ((2,), 2, 2, 3, 5), ((2, 2), 1, 1, 2, 3)):
        t('padding', 1, f'shape {(*pre, I, J, D)} padded to {L}, any integer entries', prefix=pre, I=I, J=J, D=D, L=L)
    for pre, I, J, D, k, base in (((), 1, 1, 2, 2, 1), ((), 2, 2, 2, 2, 1), ((), 2, 1, 3, 2, 1), ((), 2, 2, 1, 2, 1), ((), 2, 2, 2, 0, 1), ((2,), 1, 2, 2, 1, 1), ((2,), 2, 2, 2, 2, 1)):
        t('projrank', base, f'shape {(*pre, I, J, D)}, {k} terms, entries -1..1', prefix=pre, I=I, J=J, D=D, terms=k)
    t('refusal', 1, 'shape (2, 2, 2), any integer entries', I=2, J=2, D=2)
    for lens, I, J, D in (((0,), 1, 1, 2), ((2, 1), 2, 2, 3), ((1, 3, 2), 1, 2, 3)):
        t('columns', 1, f'braids of lengths {lens} of either kind with any images of shape {(I, J, D)}', lens=lens, I=I, J=J, D=D)
    for lens, J, D, older in (((0,), 1, 2, False), ((2,), 2, 2, False), ((1, 2), 1, 2, False), ((0,), 1, 3, True), ((2,), 2, 2, True), ((1, 2), 1, 2, True)):
        t('frames', 1, f'braids of lengths {lens} with any images of shape {(1, J, D)} with entries -1..1', lens=lens, J=J, D=D, older=older)
    return add_sequence(T, 'r05', 'stats-(2,)-1-2-3', 'padding-(2,)-1-2-2-3', 'projrank-()-2-1-3-2', 'columns-(0,)-1-1-2', 'frames-(2,)-2-2-False', 'frames-(1,2)-1-2-True')
