"""T02: linear combinations of Temperley-Lieb diagrams."""
from peyl import tl
from peyl.lpoly import LPoly
from peyl.tl import TLDiag, TLMor
from .common import Task, conc, add_sequence, sequence
from .polys import add as padd, mul as pmul, scale as pscale, power as ppower, check_lpoly
from . import tlref as R

OUTSIDE = 'larger diagrams, more terms, and coefficients with more terms or a wider range of exponents than the stated bounds'
ASSUMPTIONS = ['integers are the unbounded Python integers']

LOOP = {-1: 1, 1: 1}


def mor(h, name, top, bot, k, exps=(0, 0), width=1):
    """A combination of k different diagrams chosen by the solver, coefficients with `width` arbitrary integers."""
    ms = R.matchings(top + bot)
    ks = []
    for i in range(min(k, len(ms))):
        j = conc(h.fin(f'{name}d{i}', 0, len(ms) - 1))
        for o in ks:
            h.assume(o < j)
        ks.append(j)
    terms, want = {}, {}
    for i, j in enumerate(ks):
        v = conc(h.fin(f'{name}v{i}', *exps)) if exps[0] < exps[1] else exps[0]
        cs = [h.int(f'{name}c{i}_{w}') for w in range(width)]
        terms[TLDiag(top, bot, ms[j])] = LPoly(v, cs)
        want[ms[j]] = {v + w: c for w, c in enumerate(cs)}
    return TLMor(top, bot, terms), want


def check_mor(h, label, M, top, bot, want):
    """M is exactly the combination `want`, with no zero terms, in sorted order."""
    h.check(label + ': type', isinstance(M, TLMor) and (M.top, M.bot) == (top, bot))
    seen = []
    for d, c in M.terms.items():
        h.check(label + ': shape', isinstance(d, TLDiag) and (d.top, d.bot) == (top, bot))
        h.check(label + ': no zero terms', len(c.coeffs) > 0)
        check_lpoly(h, label, c, 0, want.get(tuple(d.seq), {}))
        seen.append(tuple(d.seq))
    h.check(label + ': sorted', seen == sorted(set(seen)))
    h.check(label + ': nothing missing', h.all([h.eq(c, 0) for s, p in want.items() if s not in seen for c in p.values()]))


def wadd(X, Y, s=1):
    r = {k: dict(p) for k, p in X.items()}
    for k, p in Y.items():
        r[k] = padd(r.get(k, {}), p, s)
    return r


def wmul(a, b, c, X, Y):
    r = {}
    for x, p in X.items():
        for y, q in Y.items():
            z, l = R.compose(a, b, c, x, y)
            r[z] = padd(r.get(z, {}), pmul(pmul(p, q), ppower(LOOP, l)))
    return r


def wid(n, p):
    return {R.ident(n): dict(p)}


def wtrace(n, X):
    r = {}
    for x, p in X.items():
        r = padd(r, pmul(p, ppower(LOOP, R.closure(n, x))))
    return r


def construct(h, a, b, k):
    M, W = mor(h, 'x', a, b, k, (-1, 0), 2)
    check_mor(h, 'construct', M, a, b, W)
    h.check('is_zero', h.iff(M.is_zero(), h.all([h.eq(c, 0) for p in W.values() for c in p.values()])))
    h.check('support', list(M.support()) == list(M.terms))
    h.check('pairs', h.eq(M.pairs(), list(M.terms.items())))
    for s in R.matchings(a + b):
        d = TLDiag(a, b, s)
        check_lpoly(h, 'coefficient', M.coefficient(d), 0, W.get(s, {}))
    check_mor(h, 'negation', -M, a, b, {s: pscale(p, -1) for s, p in W.items()})
    N, V = mor(h, 'y', a, b, 1, (-1, 0), 2)
    h.check('equality', h.iff(M == N, h.all([h.eq(W.get(s, {}).get(e, 0), V.get(s, {}).get(e, 0)) for s in set(W) | set(V) for e in (-1, 0, 1)])))


def basis(h, a, b):
    B = list(TLMor.basis(a, b))
    h.check('basis', sorted(tuple(next(iter(m.terms)).seq) for m in B) == R.matchings(a + b))
    for m in B:
        s = tuple(next(iter(m.terms)).seq)
        check_mor(h, 'basis element', m, a, b, {s: {0: 1}})
        check_mor(h, 'from_tldiag', TLMor.from_tldiag(TLDiag(a, b, s)), a, b, {s: {0: 1}})
    check_mor(h, 'identity', TLMor.id(a), a, a, wid(a, {0: 1}))
    i = conc(h.fin('i', -2, a))
    if 0 <= i < a - 1:
        check_mor(h, 'generator', TLMor.e(i, a), a, a, {R.cupcap(i, a): {0: 1}})
    else:
        h.check('refused', h.raises(AssertionError, lambda: TLMor.e(i, a)))


def sums(h, a, b, k, l):
    X, W = mor(h, 'x', a, b, k, (0, 1))
    Y, V = mor(h, 'y', a, b, l, (-1, 0))
    check_mor(h, 'sum', X + Y, a, b, wadd(W, V))
    check_mor(h, 'difference', X - Y, a, b, wadd(W, V, -1))


def scalars(h, a, b, k):
    X, W = mor(h, 'x', a, b, k, (-1, 0))
    c, v, d = h.int('c'), conc(h.fin('v', -1, 1)), h.int('d')
    p, P = LPoly(v, (c, d)), {v: c, v + 1: d}
    check_mor(h, 'integer on the right', X * c, a, b, {s: pscale(q, c) for s, q in W.items()})
    check_mor(h, 'integer on the left', c * X, a, b, {s: pscale(q, c) for s, q in W.items()})
    check_mor(h, 'polynomial on the right', X * p, a, b, {s: pmul(q, P) for s, q in W.items()})
    check_mor(h, 'polynomial on the left', p * X, a, b, {s: pmul(q, P) for s, q in W.items()})
    if a == b:
        check_mor(h, 'plus an integer', X + c, a, b, wadd(W, wid(a, {0: c})))
        check_mor(h, 'plus a polynomial', X + p, a, b, wadd(W, wid(a, P)))
        check_mor(h, 'minus an integer', X - c, a, b, wadd(W, wid(a, {0: c}), -1))
        check_mor(h, 'minus a polynomial', X - p, a, b, wadd(W, wid(a, P), -1))
    else:
        h.check('no scalars', h.raises(ValueError, lambda: X + c) and h.raises(ValueError, lambda: X + p))


def product(h, a, b, c, k, l):
    X, W = mor(h, 'x', a, b, k, (0, 1))
    Y, V = mor(h, 'y', b, c, l, (-1, -1))
    check_mor(h, 'product', X * Y, a, c, wmul(a, b, c, W, V))
    h.observe('p', [[list(d.seq), p.val, list(p.coeffs)] for d, p in (X * Y).terms.items()])
    ms = R.matchings(b + c)
    s = ms[conc(h.fin('d', 0, len(ms) - 1))]
    check_mor(h, 'times a diagram', X * TLDiag(b, c, s), a, c, wmul(a, b, c, W, {s: {0: 1}}))


def assoc(h, a, b, c, d, k):
    X, _ = mor(h, 'x', a, b, k)
    Y, _ = mor(h, 'y', b, c, 1)
    Z, _ = mor(h, 'z', c, d, k)
    h.check('associative', h.eq((X * Y) * Z, X * (Y * Z)))


def distrib(h, a, b, c):
    X, _ = mor(h, 'x', a, b, 1, (0, 1))
    Y, _ = mor(h, 'y', b, c, 1)
    Z, _ = mor(h, 'z', b, c, 1)
    h.check('distributive', h.eq(X * (Y + Z), X * Y + X * Z))
    U, _ = mor(h, 'u', a, b, 1)
    h.check('distributive on the left', h.eq((X + U) * Y, X * Y + U * Y))


def relations(h, n):
    i, j = conc(h.fin('i', 0, n - 2)), conc(h.fin('j', 0, n - 2))
    e, f = TLMor.e(i, n), TLMor.e(j, n)
    check_mor(h, 'idempotent up to a loop', e * e, n, n, {R.cupcap(i, n): LOOP})
    if abs(i - j) == 1:
        h.check('neighbours', h.eq(e * f * e, e))
    elif i != j:
        h.check('far', h.eq(e * f, f * e))
    X, W = mor(h, 'x', n, n, 1, (0, 1))
    h.check('identity is neutral', h.eq(TLMor.id(n) * X, X) and h.eq(X * TLMor.id(n), X))
    check_mor(h, 'generator on the left', e * X, n, n, wmul(n, n, n, {R.cupcap(i, n): {0: 1}}, W))
    check_mor(h, 'generator on the right', X * e, n, n, wmul(n, n, n, W, {R.cupcap(i, n): {0: 1}}))


def flips(h, a, b, c, k):
    X, W = mor(h, 'x', a, b, k, (-1, 1), 2)
    check_mor(h, 'flip', X.flip(), b, a, {R.flip(a, b, s): {-e: x for e, x in p.items()} for s, p in W.items()})
    check_mor(h, 'flip with v inverted', X.flip(True), b, a, {R.flip(a, b, s): {-e: x for e, x in p.items()} for s, p in W.items()})
    check_mor(h, 'flip with v kept', X.flip(False), b, a, {R.flip(a, b, s): p for s, p in W.items()})


def flip_product(h, a, b, c):
    X, _ = mor(h, 'x', a, b, 1, (-1, 1))
    Y, _ = mor(h, 'y', b, c, 1, (0, 1))
    t = conc(h.bool('t'))
    h.check('flip reverses products', h.eq((X * Y).flip(bool(t)), Y.flip(bool(t)) * X.flip(bool(t))))
    h.check('flip twice', h.eq(X.flip(bool(t)).flip(bool(t)), X))


def large(h, a, b, c, k):
    """Many terms on many points with fixed coefficients, one of them arbitrary on either side."""
    def many(name, a, b, s):
        ms = R.some(a + b, k)
        at = conc(h.fin(name, sorted({0, len(ms) // 2, len(ms) - 1})))
        W = {m: {(i * 3 + s) % 5 - 2: h.int(name + 'c') if i == at else (i * 7 + s) % 9 - 4 or 5} for i, m in enumerate(ms)}
        return TLMor(a, b, {TLDiag(a, b, m): LPoly(*[(e, (x,)) for e, x in p.items()][0]) for m, p in W.items()}), W
    X, W = many('x', a, b, 1)
    Y, V = many('y', b, c, 2)
    check_mor(h, 'product', X * Y, a, c, wmul(a, b, c, W, V))
    check_mor(h, 'flip', X.flip(), b, a, {R.flip(a, b, s): {-e: x for e, x in p.items()} for s, p in W.items()})
    r = conc(h.fin('r', sorted({0, min(a, b) // 2, min(a, b)})))
    check_mor(h, 'quotient', X.quotient(r), a, b, {s: p for s, p in W.items() if R.through(a, b, s) >= r})
    if a == b:
        check_lpoly(h, 'trace', X.trace(), 0, wtrace(a, W))
    if a == c == b:
        check_mor(h, 'sum', X + Y, a, b, wadd(W, V))
        check_mor(h, 'difference', X - Y, a, b, wadd(W, V, -1))


def trace(h, n, k):
    X, W = mor(h, 'x', n, n, k, (-1, 1))
    check_lpoly(h, 'trace', X.trace(), 0, wtrace(n, W))


def symmetric_trace(h, a, b, k):
    """The trace of a product does not depend on the order, also between different objects."""
    X, W = mor(h, 'x', a, b, k)
    Y, V = mor(h, 'y', b, a, k, (0, 1))
    P, Q = (X * Y).trace(), (Y * X).trace()
    h.check('exchanging factors', h.eq(P, Q))
    check_lpoly(h, 'trace of a product', P, 0, wtrace(a, wmul(a, b, a, W, V)))


def quotient(h, a, b, k):
    X, W = mor(h, 'x', a, b, k, (-1, 0))
    s = conc(h.fin('s', -1, max(a, b) + 1))
    check_mor(h, 'quotient', X.quotient(s), a, b, {m: p for m, p in W.items() if R.through(a, b, m) >= s})


def ideal(h, a, b, c):
    X, _ = mor(h, 'x', a, b, 1, (0, 1))
    Y, _ = mor(h, 'y', b, c, 1)
    s = conc(h.fin('s', 0, max(a, b, c) + 1))
    P = (X * Y).quotient(s)
    h.check('ideal on the left', h.eq((X.quotient(s) * Y).quotient(s), P))
    h.check('ideal on the right', h.eq((X * Y.quotient(s)).quotient(s), P))


def powers(h, n, k, e):
    X, W = mor(h, 'x', n, n, k)
    want = wid(n, {0: 1})
    for _ in range(e):
        want = wmul(n, n, n, want, W)
    check_mor(h, 'power', X ** e, n, n, want)


def mismatch(h, N):
    a, b, c, d = (conc(h.fin(s, 0, N)) for s in 'abcd')
    h.assume((a + b) % 2 == 0 and (c + d) % 2 == 0)
    x, y = (R.matchings(p + q)[-1] for p, q in ((a, b), (c, d)))
    X, Y = TLMor.from_tldiag(TLDiag(a, b, x)), TLMor.from_tldiag(TLDiag(c, d, y))
    same = (a, b) == (c, d)
    h.check('product', h.raises(ValueError, lambda: X * Y) == (b != c))
    h.check('product with a diagram', h.raises(ValueError, lambda: X * TLDiag(c, d, y)) == (b != c))
    h.check('sum', h.raises(ValueError, lambda: X + Y) == (not same))
    h.check('difference', h.raises(ValueError, lambda: X - Y) == (not same))
    h.check('coefficient', h.raises(ValueError, lambda: X.coefficient(TLDiag(c, d, y))) == (not same))
    h.check('construction', h.raises(ValueError, lambda: TLMor(a, b, {TLDiag(c, d, y): LPoly(0, (1,))})) == (not same))
    h.check('power', h.raises(ValueError, lambda: X ** 2) == (a != b))
    h.check('negative power', h.raises(ValueError, lambda: X ** -1))
    h.check('equality', (X == Y) == (same and x == y))
    h.check('other types', all(h.raises(TypeError, f) for f in (lambda: X * 'x', lambda: 'x' * X, lambda: X + 'x')))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    sh = 'every choice of diagrams, any integer coefficients'
    for a, b, k, base in ((0, 0, 1, 1), (1, 1, 1, 1), (2, 2, 2, 1), (1, 3, 2, 1), (3, 3, 2, 1), (0, 4, 2, 1), (2, 2, 1, 1), (3, 3, 3, 0)):
        t('construct', base, f'up to {k} terms on {a} and {b} points; {sh}', a=a, b=b, k=k)
    for a, b in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (1, 3), (2, 4), (0, 6), (5, 3)):
        t('basis', 1, f'all diagrams on {a} and {b} points', a=a, b=b)
    for a, b, k, l, base in ((0, 0, 1, 1, 1), (2, 2, 1, 2, 1), (2, 2, 2, 2, 1), (1, 3, 2, 1, 1), (3, 3, 2, 1, 1), (3, 3, 2, 2, 1), (4, 4, 1, 1, 1), (3, 3, 3, 2, 0)):
        t('sums', base, f'{k} + {l} terms on {a} and {b} points; {sh}', a=a, b=b, k=k, l=l)
    for a, b, k, base in ((0, 0, 1, 1), (2, 2, 2, 1), (1, 3, 2, 1), (3, 3, 1, 1), (3, 3, 2, 1), (4, 4, 1, 1)):
        t('scalars', base, f'{k} terms on {a} and {b} points; {sh}', a=a, b=b, k=k)
    for a, b, c, k, l, base in ((0, 0, 0, 1, 1, 1), (0, 2, 0, 1, 1, 1), (1, 1, 1, 1, 1, 1), (2, 2, 2, 2, 2, 1), (1, 3, 1, 2, 2, 1), (2, 4, 2, 1, 1, 1), (0, 4, 0, 2, 2, 1), (3, 3, 3, 1, 1, 1), (3, 3, 3, 2, 1, 1), (4, 4, 4, 1, 1, 1), (0, 6, 0, 1, 1, 1), (3, 3, 3, 2, 2, 0)):
        t('product', base, f'{k} and {l} terms on {a}, {b}, {c} points; {sh}', a=a, b=b, c=c, k=k, l=l)
    for a, b, c, d, k, base in ((1, 1, 1, 1, 1, 1), (2, 2, 2, 2, 2, 1), (1, 3, 1, 3, 1, 1), (3, 3, 3, 3, 1, 1), (0, 2, 4, 2, 1, 1)):
        t('assoc', base, f'{k}, 1 and {k} terms on {a}, {b}, {c}, {d} points; {sh}', a=a, b=b, c=c, d=d, k=k)
    for a, b, c in ((2, 2, 2), (1, 3, 1), (0, 2, 2), (3, 3, 1)):
        t('distrib', 1, f'one term each on {a}, {b}, {c} points; {sh}', a=a, b=b, c=c)
    for n in (2, 3, 4):
        t('relations', 1, f'every pair of generators and a multiple of every diagram on {n} points', n=n)
    for a, b, c, k, base in ((1, 1, 0, 1, 1), (2, 2, 0, 2, 1), (1, 3, 0, 2, 1), (3, 3, 0, 1, 1), (2, 4, 0, 1, 1)):
        t('flips', base, f'{k} terms on {a} and {b} points; {sh}', a=a, b=b, c=c, k=k)
    for a, b, c in ((1, 1, 1), (2, 2, 2), (1, 3, 1), (3, 3, 3), (0, 2, 4)):
        t('flip_product', 1, f'one term each on {a}, {b}, {c} points; {sh}', a=a, b=b, c=c)
    for n, k in ((0, 1), (1, 1), (2, 2), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1), (6, 1)):
        t('trace', 1, f'{k} terms on {n} points; {sh}', n=n, k=k)
    for a, b, k in ((0, 0, 1), (1, 1, 1), (2, 2, 2), (1, 3, 1), (3, 1, 2), (3, 3, 1), (0, 4, 1), (2, 4, 1)):
        t('symmetric_trace', 1, f'{k} terms each on {a} and {b} points; {sh}', a=a, b=b, k=k)
    for a, b, k in ((0, 0, 1), (2, 2, 2), (3, 3, 2), (1, 3, 2), (4, 4, 1), (2, 4, 2)):
        t('quotient', 1, f'{k} terms on {a} and {b} points, every number of strands; {sh}', a=a, b=b, k=k)
    for a, b, c in ((2, 2, 2), (3, 3, 3), (1, 3, 3), (4, 4, 2)):
        t('ideal', 1, f'one term each on {a}, {b}, {c} points, every number of strands; {sh}', a=a, b=b, c=c)
    for n, k, e in ((0, 1, 3), (1, 1, 4), (2, 2, 0), (2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 1, 2), (3, 2, 2), (3, 1, 5), (2, 1, 6), (4, 1, 3), (2, 1, 12), (3, 1, 9), (2, 2, 5)):
        t('powers', 1, f'{k} terms on {n} points, exponent {e}; {sh}', n=n, k=k, e=e)
    for a, b, c, k in ((6, 6, 6, 6), (8, 8, 8, 3), (0, 12, 0, 8), (3, 11, 5, 4), (10, 10, 10, 1)):
        t('large', 1, f'up to {k + 2} terms on {a}, {b}, {c} points with fixed coefficients, one on each side any integer', a=a, b=b, c=c, k=k)
    t('mismatch', 1, 'every pair of shapes up to 3 points on each side', N=3)
    return add_sequence(T, 't02', 'basis-2-2', 'powers-2-2-2', 'product-1-1-1-1-1', 'trace-1-1', 'basis-1-3', 'product-0-2-0-1-1')
