"""A02: integer polynomials and exact division."""
from peyl.poly import Poly
from peyl.lpoly import LPoly
from .common import Task, conc, add_sequence, sequence
from .polys import add, mul, scale, power, check_poly, check_lpoly, coeffs, longlist, refof

OUTSIDE = 'higher degrees than the stated bounds; divisors whose leading coefficient is outside the stated range'
ASSUMPTIONS = ['integers are the unbounded Python integers']


def construct(h, k):
    a = coeffs(h, 'a', k)
    p = Poly(*a)
    check_poly(h, 'construct', p, refof(a))
    h.check('is_zero', h.iff(p.is_zero(), h.all([h.eq(c, 0) for c in a])))
    h.check('degree', h.eq(p.deg(), len(p.coeffs) - 1))
    h.check('equals zero', h.iff(p == Poly(), h.all([h.eq(c, 0) for c in a])))


def ring(h, k, l):
    a, b = coeffs(h, 'a', k), coeffs(h, 'b', l)
    p, q, P, Q = Poly(*a), Poly(*b), refof(a), refof(b)
    check_poly(h, 'sum', p + q, add(P, Q))
    check_poly(h, 'difference', p - q, add(P, Q, -1))
    check_poly(h, 'negative', -p, scale(P, -1))
    check_poly(h, 'product', p * q, mul(P, Q))
    h.check('equality', h.iff(p == q, h.all([h.eq(P.get(e, 0), Q.get(e, 0)) for e in set(P) | set(Q)])))


def ints(h, k):
    a = coeffs(h, 'a', k)
    c = h.int('c')
    p, P = Poly(*a), refof(a)
    C = {0: c}
    check_poly(h, 'p + c', p + c, add(P, C))
    check_poly(h, 'c + p', c + p, add(P, C))
    check_poly(h, 'p - c', p - c, add(P, C, -1))
    check_poly(h, 'p * c', p * c, scale(P, c))
    check_poly(h, 'c * p', c * p, scale(P, c))


def powers(h, k, n):
    a = coeffs(h, 'a', k)
    p = Poly(*a)
    if n < 0:
        h.check('negative powers refused', h.raises(ValueError, lambda: p ** n))
    else:
        check_poly(h, 'power', p ** n, power(refof(a), n))


def evaluation(h, k):
    a = coeffs(h, 'a', k)
    p = Poly(*a)
    x = h.int('x')
    h.check('at an integer', h.eq(p.evaluate(x), sum([a[i] * x ** i for i in range(k)])))
    b = coeffs(h, 'b', 2)
    want = {}
    for i in range(k):
        want = add(want, scale(power(refof(b), i), a[i]))
    r = p.evaluate(Poly(*b))
    check_poly(h, 'at a polynomial', r if isinstance(r, Poly) else Poly(r), want)


def lead(h, name, m):
    c = conc(h.fin(name, -m, m))
    h.assume(c != 0)
    return c


def divide(h, k, l, m):
    """Whenever division returns, n = d q + r with deg r < deg d."""
    a, b = coeffs(h, 'a', k), coeffs(h, 'b', l - 1) + [lead(h, 'lead', m)]
    n, d = Poly(*a), Poly(*b)
    out = []
    refused = h.raises(ValueError, lambda: out.append(divmod(n, d)))
    if refused:
        # only a leading coefficient that does not divide can stop it
        h.check('monic divisors never fail', abs(b[-1]) != 1)
        return
    q, r = out[0]
    h.check('remainder smaller', len(r.coeffs) < l)
    want = refof(a)
    got = add(mul(refof(b), refof(q.coeffs)), refof(r.coeffs))
    h.check('n = d q + r', h.all([h.eq(want.get(e, 0), got.get(e, 0)) for e in set(want) | set(got)]))
    exact = []
    failed = h.raises(ValueError, lambda: exact.append(n / d))
    h.check('exact exactly when the remainder is zero', h.iff(failed, h.not_(r.is_zero())))
    if exact:
        h.check('quotient', h.eq(exact[0], q))
    h.check('arguments unchanged', h.all([h.eq(n, Poly(*a)), h.eq(d, Poly(*b))]))


def undo(h, k, l, m):
    """Exact division undoes multiplication."""
    a, b = coeffs(h, 'a', k), coeffs(h, 'b', l - 1) + [lead(h, 'lead', m)]
    q, d = Poly(*a), Poly(*b)
    n = d * q
    h.check('quotient', h.eq(n / d, q))
    Q, R = divmod(n, d)
    h.check('divmod', h.all([h.eq(Q, q), R.is_zero()]))


def inexact(h, k, l, m):
    """A nonzero remainder of smaller degree is always reported."""
    a, b = coeffs(h, 'a', k), coeffs(h, 'b', l - 1) + [lead(h, 'lead', m)]
    r = coeffs(h, 'r', l - 1)
    h.assume(h.any([h.not_(h.eq(c, 0)) for c in r]))
    n = Poly(*b) * Poly(*a) + Poly(*r)
    Q, R = divmod(n, Poly(*b))
    h.check('divmod recovers quotient and remainder', h.all([h.eq(Q, Poly(*a)), h.eq(R, Poly(*r))]))
    h.check('inexact division raises', h.raises(ValueError, lambda: n / Poly(*b)))


def laurent(h, k, l, m):
    a, b = coeffs(h, 'a', k), coeffs(h, 'b', l - 1) + [lead(h, 'lead', m)]
    v, w = h.int('v'), h.int('w')
    q, d = LPoly(v, a), LPoly(w, b)
    r = (q * d) / d
    check_lpoly(h, 'Laurent quotient', r, v, refof(a))


def laurent_inexact(h, k, m):
    """c v^i / (1 + u v): exact only for c = 0; and whenever a quotient is returned it multiplies back."""
    a = coeffs(h, 'a', k)
    v, w = h.int('v'), h.int('w')
    d = LPoly(w, [h.int('u'), lead(h, 'lead', m)])
    n = LPoly(v, a)
    out = []
    refused = h.raises(ValueError, lambda: out.append(n / d))
    if not refused:
        h.check('multiplies back', h.eq(out[0] * d, n))
    else:
        h.check('zero is divisible', h.not_(n.is_zero()))


BIG = [0, 1, -3, 2 ** 53 + 1, 2 ** 64 - 1, -(10 ** 25) - 7]


def large(h, k, l):
    """Exact division beyond machine precision, coefficients chosen from a list of extreme values."""
    a = [conc(h.fin(f'a{i}', BIG)) for i in range(k)]
    b = [conc(h.fin(f'b{i}', BIG[:4])) for i in range(l - 1)] + [conc(h.fin('lead', [1, 3, -(2 ** 53) - 1]))]
    q, d = Poly(*a), Poly(*b)
    n = d * q
    check_poly(h, 'product', n, mul(refof(a), refof(b)))
    h.check('quotient', n / d == q)
    h.check('divmod', divmod(n, d) == (q, Poly()))
    if a[-1]:
        h.check('Laurent quotient', LPoly(-2, n.coeffs) / LPoly(5, b) == LPoly(-7, a))
    if l > 1:
        h.check('one off is refused', h.raises(ValueError, lambda: (n + 1) / d))
    h.check('value', q.evaluate(10 ** 9) == sum(c * 10 ** (9 * i) for i, c in enumerate(a)))


def zero_divisor(h, k):
    a = coeffs(h, 'a', k)
    h.check('division by zero refused', h.raises((AssertionError, ZeroDivisionError, ValueError), lambda: divmod(Poly(*a), Poly(0, 0))))


def long(h, k, l):
    """Long polynomials with one arbitrary coefficient."""
    b = longlist(h, 'b', l, [0, 1], [-2, 0, 1])
    b[-1] = conc(h.fin('lead', [1, -1, 3, -2]))
    a = longlist(h, 'a', k, values=None if abs(b[-1]) == 1 else [-7, 0, 1, 10 ** 20])
    p, d, P, D = Poly(*a), Poly(*b), refof(a), refof(b)
    check_poly(h, 'sum', p + d, add(P, D))
    check_poly(h, 'difference', d - p, add(D, P, -1))
    n = p * d
    check_poly(h, 'product', n, mul(P, D))
    check_poly(h, 'quotient', n / d, P)
    r = [(3 * j + 1) % 5 - 2 for j in range(l - 1)]
    Q, R = divmod(n + Poly(*r), d)
    check_poly(h, 'quotient with remainder', Q, P)
    check_poly(h, 'remainder', R, refof(r))
    h.check('inexact division raises', h.raises(ValueError, lambda: (n + Poly(*r)) / d))
    check_lpoly(h, 'Laurent quotient', LPoly(-20, n.coeffs) / LPoly(9, b), -29, P)
    h.check('evaluation', h.eq(p.evaluate(-2), sum([c * (-2) ** i for i, c in enumerate(a)])))


def sparse(h, k, l, gap):
    """Division of polynomials with long runs of zeros between the nonzero coefficients."""
    b = [conc(h.fin(f'b{i}', [-2, 0, 1])) for i in range(l - 1)] + [conc(h.fin('lead', [1, -1]))]
    a = coeffs(h, 'a', 2) + [0] * gap + coeffs(h, 'c', k - 2)
    Q, R = divmod(Poly(*a), Poly(*b))
    h.check('remainder smaller', len(R.coeffs) < l)
    want, got = refof(a), add(mul(refof(b), refof(Q.coeffs)), refof(R.coeffs))
    h.check('n = d q + r', h.all([h.eq(want.get(e, 0), got.get(e, 0)) for e in set(want) | set(got)]))
    # quotients with long runs of zeros
    p = Poly(*a) * Poly(*b)
    Q, R = divmod(p, Poly(*b))
    check_poly(h, 'quotient', Q, want)
    h.check('no remainder', R.is_zero())


HUGE = [1, -1, 7, -8191, 2**31 - 1, 2**53 + 1, -2**64, 10**30 + 1]


def full(h, k, l):
    """Long polynomials all of whose coefficients are as large."""
    c, d = HUGE[conc(h.fin('c', 0, len(HUGE) - 1))], HUGE[conc(h.fin('d', 0, len(HUGE) - 1))]
    alt = conc(h.fin('alternating', 0, 1))
    a = [c * (-1) ** (i * alt) for i in range(k)]
    b = [d * (-1) ** (i * alt) for i in range(l)]
    p, q, P, Q = Poly(*a), Poly(*b), refof(a), refof(b)
    n = p * q
    check_poly(h, 'product', n, mul(P, Q))
    check_poly(h, 'sum', p + q, add(P, Q))
    check_poly(h, 'difference', p - q, add(P, Q, -1))
    h.check('quotient', n / q == p and divmod(n, p) == (q, Poly()))
    h.check('evaluation', n.evaluate(-3) == p.evaluate(-3) * q.evaluate(-3) == sum(x * (-3) ** e for e, x in mul(P, Q).items()))


def high(h, k):
    """High powers."""
    n = conc(h.fin('n', [4, 7, 8, 11, 16, 33]))
    a = [conc(h.fin(f'a{i}', [-2, 0, 1])) for i in range(k)]
    check_poly(h, 'power', Poly(*a) ** n, power(refof(a), n))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    U = 'any integer coefficients'
    for k in (0, 1, 2, 4, 6):
        t('construct', 1, f'{k} coefficients, {U}', k=k)
    for k, l, base in ((0, 1, 1), (1, 1, 1), (2, 2, 1), (3, 2, 1), (3, 3, 1), (1, 4, 1), (4, 4, 0)):
        t('ring', base, f'{k} and {l} coefficients, {U}', k=k, l=l)
    for k in (0, 1, 2, 3, 5):
        t('ints', 1, f'{k} coefficients, {U} and any integer', k=k)
    for k, n, base in ((2, -1, 1), (2, 0, 1), (2, 1, 1), (2, 2, 1), (2, 3, 1), (3, 2, 1), (1, 7, 1), (2, 6, 1), (3, 4, 0)):
        t('powers', base, f'{k} coefficients, exponent {n}, {U}', k=k, n=n)
    for k in (0, 1, 2, 3, 4):
        t('evaluation', 1, f'{k} coefficients, {U}, at any integer and any linear polynomial', k=k)
    for k, l, m, base in ((1, 1, 3, 1), (2, 1, 3, 1), (2, 2, 3, 1), (3, 2, 2, 1), (4, 2, 1, 1), (4, 3, 1, 0), (2, 4, 1, 1), (5, 2, 1, 0), (4, 3, 2, 0)):
        t('divide', base, f'{k} by {l} coefficients, {U}, leading coefficient of the divisor in -{m}..{m}', k=k, l=l, m=m)
        t('undo', base, f'{k} by {l} coefficients, {U}, leading coefficient of the divisor in -{m}..{m}', k=k, l=l, m=m)
    for k, l, m, base in ((1, 2, 3, 1), (2, 2, 2, 1), (2, 3, 1, 0), (2, 3, 2, 0)):
        t('inexact', base, f'{k} by {l} coefficients, {U}, leading coefficient of the divisor in -{m}..{m}', k=k, l=l, m=m)
    for k, l, m, base in ((1, 2, 2, 1), (2, 2, 2, 1), (3, 2, 1, 1), (2, 3, 2, 1)):
        t('laurent', base, f'{k} by {l} coefficients, {U}, any valuations', k=k, l=l, m=m)
    for k, m in ((1, 2), (2, 2), (3, 1)):
        t('laurent_inexact', 1, f'{k} coefficients by a binomial, {U}, any valuations', k=k, m=m)
    for k, l in ((1, 1), (2, 2), (1, 3), (3, 1)):
        t('large', 1, f'{k} and {l} coefficients from {BIG}', k=k, l=l)
    t('zero_divisor', 1, U, k=2)
    for k, l in ((12, 4), (30, 12), (6, 30)):
        t('long', 1, f'{k} coefficients, of which one is arbitrary, by {l}', k=k, l=l)
    for k, l, gap in ((3, 2, 10), (4, 2, 20), (3, 3, 17), (3, 1, 30), (4, 2, 45)):
        t('sparse', 1, f'{k} coefficients, {U}, the second and third {gap + 1} powers apart, by {l} coefficients out of -2, 0, 1 with leading one 1 or -1', k=k, l=l, gap=gap)
    for k, l in ((8, 8), (17, 17), (24, 40), (50, 3)):
        t('full', 1, f'{k} and {l} coefficients of the same absolute values, of 1 to 31 digits', k=k, l=l)
    for k in (1, 2, 3):
        t('high', 1, f'{k} coefficients from -2, 0, 1, exponents up to 33', k=k)
    return add_sequence(T, 'a02', 'ring-1-1', 'construct-1', 'ints-1', 'powers-2-2', 'evaluation-1', 'laurent-1-2-2')
