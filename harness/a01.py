"""A01: Laurent polynomials."""
from peyl.lpoly import LPoly
from .common import Task, conc, add_sequence, sequence
from .polys import add, mul, scale, power, check_lpoly, coeffs, longlist, refof

OUTSIDE = 'more terms than the stated bounds; for sums, valuations further apart than the stated bounds'
ASSUMPTIONS = ['integers are the unbounded Python integers']


def construct(h, k):
    """Any coefficient list, with zeros anywhere and any valuation, gives the canonical representative."""
    v = h.int('v')
    cs = coeffs(h, 'a', k)
    p = LPoly(v, tuple(cs))
    check_lpoly(h, 'construct', p, v, refof(cs))
    q = LPoly(v, list(cs))
    h.check('lists too', h.eq(p, q))
    zero = h.all([h.eq(c, 0) for c in cs])
    h.check('is_zero', h.iff(p.is_zero(), zero))
    h.check('equals the zero polynomial', h.iff(p == LPoly(0, ()), zero))
    nz = sum([h.ite(h.eq(c, 0), 0, 1) for c in cs])
    unit = h.all([h.eq(nz, 1), h.any([h.any([h.eq(c, 1), h.eq(c, -1)]) for c in cs])])
    h.check('is_unit', h.iff(p.is_unit(), unit))
    if not p.is_zero():
        lo = h.all([h.implies(h.eq(p.valuation(), v + i), h.all([h.eq(c, 0) for c in cs[:i]] + [h.not_(h.eq(cs[i], 0))])) for i in range(k)])
        hi = h.all([h.implies(h.eq(p.degree(), v + i), h.all([h.eq(c, 0) for c in cs[i + 1:]] + [h.not_(h.eq(cs[i], 0))])) for i in range(k)])
        h.check('valuation', h.all([lo, p.valuation() >= v, p.valuation() <= v + k - 1]))
        h.check('degree', h.all([hi, p.degree() >= v, p.degree() <= v + k - 1]))
    h.observe('p', [p.val, list(p.coeffs)])


def pair(h, k, l, lo, hi):
    v, w = conc(h.fin('v', lo, hi)), conc(h.fin('w', lo, hi))
    a, b = coeffs(h, 'a', k), coeffs(h, 'b', l)
    return LPoly(v, a), refof(a, v), LPoly(w, b), refof(b, w)


def sums(h, k, l, lo, hi):
    p, P, q, Q = pair(h, k, l, lo, hi)
    check_lpoly(h, 'sum', p + q, 0, add(P, Q))
    check_lpoly(h, 'difference', p - q, 0, add(P, Q, -1))
    h.check('equality', h.iff(p == q, h.all([h.eq(P.get(e, 0), Q.get(e, 0)) for e in set(P) | set(Q)])))


def hashes(h, k, m):
    """Equal polynomials built from different lists hash alike, and can replace each other as dictionary keys."""
    v, w = conc(h.fin('v', -1, 1)), conc(h.fin('w', -1, 1))
    a, b = [conc(h.fin(f'a{i}', -m, m)) for i in range(k)], [conc(h.fin(f'b{i}', -m, m)) for i in range(k)]
    p, q = LPoly(v, a), LPoly(w, b)
    A, B = [{e: c for e, c in refof(x, y).items() if c} for x, y in ((a, v), (b, w))]
    h.check('equality', (p == q) == (A == B))
    h.check('dictionary keys', ({p: 1}.get(q) == 1) == (A == B))
    if A == B:
        h.check('equal hashes', hash(p) == hash(q))


def ints(h, k, lo, hi):
    """Integer operands on either side."""
    v = conc(h.fin('v', lo, hi))
    a = coeffs(h, 'a', k)
    c = h.int('c')
    p, P = LPoly(v, a), refof(a, v)
    C = {0: c}
    check_lpoly(h, 'p + c', p + c, 0, add(P, C))
    check_lpoly(h, 'c + p', c + p, 0, add(C, P))
    check_lpoly(h, 'p - c', p - c, 0, add(P, C, -1))
    check_lpoly(h, 'c - p', c - p, 0, add(C, P, -1))
    check_lpoly(h, 'p * c', p * c, 0, scale(P, c))
    check_lpoly(h, 'c * p', c * p, 0, scale(P, c))
    check_lpoly(h, '-p', -p, 0, scale(P, -1))
    check_lpoly(h, 'coerce', LPoly.coerce(c), 0, C)
    h.check('coerce keeps polynomials', h.eq(LPoly.coerce(p), p))
    h.check('coerce refuses', h.raises(ValueError, lambda: LPoly.coerce('x')))


def product(h, k, l):
    v, w = h.int('v'), h.int('w')
    a, b = coeffs(h, 'a', k), coeffs(h, 'b', l)
    r = LPoly(v, a) * LPoly(w, b)
    check_lpoly(h, 'product', r, v + w, mul(refof(a), refof(b)))
    h.observe('r', [r.val, list(r.coeffs)])


def product_small(h, k, l, m):
    """Products with small coefficients: end terms may cancel to shorter lists in every way."""
    v, w = h.int('v'), h.int('w')
    a = [h.fin(f'a{i}', -m, m) for i in range(k)]
    b = [h.fin(f'b{i}', -m, m) for i in range(l)]
    p, q = LPoly(v, a), LPoly(w, b)
    check_lpoly(h, 'product', p * q, v + w, mul(refof(a), refof(b)))
    h.check('commutative', h.eq(p * q, q * p))
    h.check('zero divisors', h.iff((p * q).is_zero(), h.any([p.is_zero(), q.is_zero()])))


def ring(h, k, lo, hi):
    """Distributivity and associativity, with coefficients of any size."""
    p, P, q, Q = pair(h, k, k, lo, hi)
    c = coeffs(h, 'c', 1)
    r = LPoly(1, c)
    h.check('distributive', h.eq((p + q) * r, p * r + q * r))
    h.check('associative', h.eq((p + q) + r, p + (q + r)))
    h.check('subtraction', h.eq((p - q) + q, p))


def powers(h, k, n):
    v = h.int('v')
    a = coeffs(h, 'a', k)
    p = LPoly(v, a)
    if n >= 0:
        check_lpoly(h, 'power', p ** n, n * v, power(refof(a), n))
        return
    unit = h.all([h.eq(sum([h.ite(h.eq(c, 0), 0, 1) for c in a]), 1), h.any([h.any([h.eq(c, 1), h.eq(c, -1)]) for c in a])])
    out = []
    refused = h.raises(ValueError, lambda: out.append(p ** n))
    h.check('only units have inverses', h.iff(refused, h.not_(unit)))
    if out:
        h.check('inverse power', h.eq(out[0] * p ** -n, LPoly(0, (1,))))


def evaluation(h, k, lo, hi):
    v = conc(h.fin('v', lo, hi))
    a = coeffs(h, 'a', k)
    p = LPoly(v, a)
    if v >= 0:
        x = h.int('x')
        h.check('at an integer', h.eq(p.evaluate(x), sum([a[i] * x ** (v + i) for i in range(k)])))
    s = h.choice('s', [1, -1])
    t = conc(h.fin('t', -2, 2))
    s = conc(s)
    u = LPoly(t, (s,))
    want = {}
    for i in range(k):
        e = (v + i) * t
        c = a[i] if s == 1 or (v + i) % 2 == 0 else -a[i]
        want[e] = want[e] + c if e in want else c
    r = p.evaluate(u)
    check_lpoly(h, 'at a unit', LPoly.coerce(r), 0, want)


def mapping(h, k):
    v = h.int('v')
    a = coeffs(h, 'a', k)
    m = h.int('m')
    p = LPoly(v, a)
    check_lpoly(h, 'map scales', p.map(lambda c: m * c), v, scale(refof(a), m))
    b = [h.fin(f'b{i}', -6, 6) for i in range(k)]
    q = LPoly(v, b).map(lambda c: c % 3)
    check_lpoly(h, 'map reduces', q, v, {i: c % 3 for i, c in enumerate(b)})


def long(h, k, l):
    """Long polynomials with one arbitrary coefficient in each, and valuations far apart."""
    v, w = conc(h.fin('v', [-60, -1, 0, 7])), conc(h.fin('w', [-9, 0, 40]))
    a, b = longlist(h, 'a', k), longlist(h, 'b', l, [0, l - 1])
    p, q, P, Q = LPoly(v, a), LPoly(w, b), refof(a, v), refof(b, w)
    check_lpoly(h, 'sum', p + q, 0, add(P, Q))
    check_lpoly(h, 'difference', q - p, 0, add(Q, P, -1))
    check_lpoly(h, 'product', p * q, 0, mul(P, Q))
    h.check('commutes', h.eq(p * q, q * p))
    check_lpoly(h, 'p + 3', p + 3, 0, add(P, {0: 3}))
    check_lpoly(h, '5 - p', -p + 5, 0, add({0: 5}, P, -1))
    h.check('sum taken back', h.eq((p + q) - q, p))
    check_lpoly(h, 'at a unit', LPoly.coerce(p.evaluate(LPoly(-3, (-1,)))), 0, {-3 * e: c * (-1) ** (e % 2) for e, c in P.items()})


BIG = [1, -1, 7, -8191, 2**31 - 1, 2**53 + 1, -2**64, 10**30 + 1]


def full(h, k, l):
    """Long polynomials all of whose coefficients are as large."""
    c, d = BIG[conc(h.fin('c', 0, len(BIG) - 1))], BIG[conc(h.fin('d', 0, len(BIG) - 1))]
    alt = conc(h.fin('alternating', 0, 1))
    a = [c * (-1) ** (i * alt) for i in range(k)]
    b = [d * (-1) ** (i * alt) for i in range(l)]
    p, q, P, Q = LPoly(-5, a), LPoly(2, b), refof(a, -5), refof(b, 2)
    check_lpoly(h, 'product', p * q, 0, mul(P, Q))
    check_lpoly(h, 'the other way', q * p, 0, mul(P, Q))
    check_lpoly(h, 'sum', p + q, 0, add(P, Q))
    check_lpoly(h, 'difference', p - q, 0, add(P, Q, -1))
    if k * k * l < 10000:
        check_lpoly(h, 'square', p ** 2 * q, 0, mul(mul(P, P), Q))


def high(h, k):
    """High powers."""
    n = conc(h.fin('n', [4, 7, 8, 11, 16, 33]))
    v = conc(h.fin('v', [-3, 0, 2]))
    a = [conc(h.fin(f'a{i}', [-2, 0, 1])) for i in range(k)]
    p = LPoly(v, a)
    check_lpoly(h, 'power', p ** n, n * v, power(refof(a), n))
    u = LPoly(v, (-1,))
    check_lpoly(h, 'power of a unit', u ** -n, 0, {-n * v: (-1) ** n})
    h.check('inverse', u ** -n * u ** n == LPoly(0, (1,)) and u ** (n + 1) == u ** n * u)


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    U = 'any integer coefficients and '
    for k, base in ((0, 1), (1, 1), (2, 1), (3, 1), (5, 1), (8, 1)):
        t('construct', base, f'{k} coefficients, {U}any valuation', k=k)
    for k, l, lo, hi, base in ((1, 1, -2, 2, 1), (2, 2, -2, 2, 1), (3, 2, -2, 1, 1), (3, 3, -1, 1, 1), (4, 4, -1, 1, 1), (5, 4, -3, 3, 0)):
        t('sums', base, f'{k} and {l} coefficients, {U}valuations {lo}..{hi}', k=k, l=l, lo=lo, hi=hi)
    for k, lo, hi, base in ((0, 0, 0, 1), (1, -2, 2, 1), (2, -2, 2, 1), (3, -3, 1, 1), (4, -4, 1, 0)):
        t('ints', base, f'{k} coefficients and any integer, {U}valuations {lo}..{hi}', k=k, lo=lo, hi=hi)
    for k, m, base in ((2, 1, 1), (3, 1, 0), (2, 2, 0)):
        t('hashes', base, f'{k} coefficients in -{m}..{m}, valuations -1..1', k=k, m=m)
    for k, l, base in ((0, 2, 1), (1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1), (3, 3, 1), (4, 3, 0), (4, 4, 0)):
        t('product', base, f'{k} and {l} coefficients, {U}any valuations', k=k, l=l)
    for k, l, m, base in ((2, 2, 3, 1), (3, 2, 2, 1), (3, 3, 1, 1), (3, 3, 2, 0)):
        t('product_small', base, f'{k} and {l} coefficients in -{m}..{m}, any valuations', k=k, l=l, m=m)
    for k, lo, hi, base in ((1, -1, 1, 1), (2, -1, 1, 1)):
        t('ring', base, f'{k} coefficients, {U}valuations {lo}..{hi}', k=k, lo=lo, hi=hi)
    for k, n, base in ((2, 0, 1), (2, 1, 1), (2, 2, 1), (2, 3, 1), (1, 5, 1), (1, 8, 1), (2, 5, 1), (3, 2, 1), (3, 3, 0), (1, -1, 1), (2, -1, 1), (2, -2, 1), (3, -3, 1)):
        t('powers', base, f'{k} coefficients, exponent {n}, {U}any valuation', k=k, n=n)
    for k, lo, hi, base in ((1, -2, 3, 1), (2, -2, 2, 1), (3, -2, 1, 1)):
        t('evaluation', base, f'{k} coefficients, {U}valuations {lo}..{hi}, at any integer and at signed powers of v', k=k, lo=lo, hi=hi)
    for k in (0, 1, 2, 3):
        t('mapping', 1, f'{k} coefficients', k=k)
    for k, l, base in ((9, 3, 1), (24, 11, 1), (40, 40, 1)):
        t('long', base, f'{k} and {l} coefficients, one arbitrary in each, valuations -60..40', k=k, l=l)
    for k, l in ((8, 8), (17, 17), (24, 40), (70, 70), (130, 3)):
        t('full', 1, f'{k} and {l} coefficients of the same absolute values, of 1 to 31 digits', k=k, l=l)
    for k in (1, 2, 3):
        t('high', 1, f'{k} coefficients from -2, 0, 1, exponents up to 33', k=k)
    return add_sequence(T, 'a01', 'construct-1', 'ints-0-0-0', 'product-1-1', 'powers-2-2', 'product-2-1', 'powers-1--1')
