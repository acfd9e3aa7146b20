"""A03: cyclotomic, Chebyshev and cosine-minimal polynomials, quantum integers."""
from peyl.poly import Poly
from peyl.lpoly import LPoly
from .common import Task, conc, add_sequence, sequence
from .polys import add, mul, check_lpoly, refof

OUTSIDE = 'larger indices than the stated bounds'
ASSUMPTIONS = ['an identity at every integer argument (decided with the argument as an unbounded variable) is an identity of polynomials']


def pdiv(n, d):
    """Exact quotient of integer coefficient lists (monic divisor)."""
    n, q = list(n), [0] * (len(n) - len(d) + 1)
    for i in range(len(q) - 1, -1, -1):
        q[i] = n[i + len(d) - 1]
        for j, c in enumerate(d):
            n[i + j] -= q[i] * c
    assert not any(n)
    return q


def cyc(n):
    r = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            r = pdiv(r, cyc(d))
    return r


def totient(n):
    return len(cyc(n)) - 1


def at(coeffs, x):
    r = 0
    for c in reversed(coeffs):
        r = r * x + c
    return r


def cyclotomic(h, N):
    n = conc(h.fin('n', 1, N))
    x = h.int('x')
    prod = 1
    for d in range(1, n + 1):
        if n % d == 0:
            prod = prod * at(Poly.cyclotomic(d).coeffs, x)
    h.check('product over the divisors', h.eq(prod, x ** n - 1))
    p = Poly.cyclotomic(n)
    h.check('monic of degree phi(n)', p.coeffs[-1] == 1 and p.deg() == totient(n))
    h.check('this index', h.eq(at(p.coeffs, x), at(cyc(n), x)))
    h.check('evaluate', h.eq(p.evaluate(x), at(cyc(n), x)))


def refuse(h, N):
    n = conc(h.fin('n', -N, 0))
    h.check('cyclotomic', h.raises(ValueError, lambda: Poly.cyclotomic(n)))
    if n < 0:
        h.check('chebyshevT', h.raises(ValueError, lambda: Poly.chebyshevT(n)))


def chebyshev(h, N):
    n = conc(h.fin('n', 0, N))
    y = h.int('y')
    p = Poly.chebyshevT(n)
    h.check('degree', p.deg() == n and p.coeffs[-1] == (2 ** (n - 1) if n else 1))
    # T_n((y + 1/y)/2) = (y^n + y^-n)/2, multiplied by 2^n y^n * 2
    lhs = 0
    for i, c in enumerate(p.coeffs):
        lhs = lhs + 2 * c * 2 ** (n - i) * (y * y + 1) ** i * y ** (n - i)
    h.check('functional equation', h.eq(lhs, 2 ** n * (y ** (2 * n) + 1)))


def nesting(h, N):
    m, n = conc(h.fin('m', 0, N)), conc(h.fin('n', 0, N))
    x = h.int('x')
    h.check('T_m(T_n) = T_mn', h.eq(Poly.chebyshevT(m).evaluate(Poly.chebyshevT(n).evaluate(x)), Poly.chebyshevT(m * n).evaluate(x)))


def minpolycos(h, N):
    n = conc(h.fin('n', 1, N))
    y = h.int('y')
    p = Poly.minpolycos(n)
    d = p.deg()
    h.check('monic', p.coeffs[-1] == 1 and all(isinstance(c, int) for c in p.coeffs))
    h.check('degree', d == (1 if n <= 2 else totient(n) // 2))
    lhs = 0
    for i, c in enumerate(p.coeffs):
        lhs = lhs + c * (y * y + 1) ** i * y ** (d - i)
    want = at(cyc(n), y)
    h.check('substitution identity', h.eq(lhs, want * want if n <= 2 else want))


def cyc_fast(n):
    """The cyclotomic polynomial by Moebius inversion, for larger indices."""
    r, down = [1], []
    for d in range(1, n + 1):
        if n % d:
            continue
        m, mu = n // d, 1
        for q in range(2, m + 1):
            if m % q == 0:
                m, mu = m // q, -mu
                if m % q == 0:
                    mu = 0
                    break
        if mu > 0:
            s = [0] * (len(r) + d)
            for i, c in enumerate(r):
                s[i + d] += c
                s[i] -= c
            r = s
        elif mu < 0:
            down.append(d)
    for d in down:
        r = pdiv(r, [-1] + [0] * (d - 1) + [1])
    return r


def larger(h, ns):
    """Single large indices."""
    n = conc(h.fin('n', ns))
    want = cyc_fast(n)
    h.check('cyclotomic', list(Poly.cyclotomic(n).coeffs) == want)
    p = Poly.minpolycos(n)
    d = p.deg()
    h.check('monic', p.coeffs[-1] == 1 and all(isinstance(c, int) for c in p.coeffs) and 2 * d == len(want) - 1)
    # y^d p(y + 1/y) as a list of coefficients, by a Horner scheme
    got = [p.coeffs[-1]]
    for k, c in enumerate(reversed(p.coeffs[:-1]), 1):
        s = [0] * (len(got) + 2)
        for i, x in enumerate(got):
            s[i] += x
            s[i + 2] += x
        s[k] += c
        got = s
    h.check('substitution identity', got == want)
    a, b = [1], [0, 1]
    for _ in range(n - 1):
        s = [0] + [2 * x for x in b]
        for i, x in enumerate(a):
            s[i] -= x
        a, b = b, s
    h.check('Chebyshev', list(Poly.chebyshevT(n).coeffs) == b)


def quantum(h, N):
    n = conc(h.fin('n', -N, N))
    q = LPoly.quantum_integer(n)
    s = 1 if n >= 0 else -1
    want = {e: s for e in range(-abs(n) + 1, abs(n), 2)}
    check_lpoly(h, 'terms', q, 0, want)
    v, vi = LPoly(1, (1,)), LPoly(-1, (1,))
    h.check('defining identity', h.eq((v - vi) * q, v ** n - v ** -n))
    h.check('odd', h.eq(LPoly.quantum_integer(-n), -q))
    m = conc(h.fin('m', -N, N))
    # [n + m] = v^m [n] + v^-n [m]
    h.check('addition', h.eq(LPoly.quantum_integer(n + m), v ** m * q + v ** -n * LPoly.quantum_integer(m)))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for N, base in ((12, 1), (36, 1), (110, 1)):
        t('cyclotomic', base, f'every index up to {N}, any integer argument', N=N)
    t('refuse', 1, 'indices down to -5', N=5)
    for N, base in ((8, 1), (16, 1), (40, 1)):
        t('chebyshev', base, f'every index up to {N}, any integer argument', N=N)
    t('nesting', 1, 'all pairs of indices up to 4, any integer argument', N=4)
    for N, base in ((16, 1), (40, 1), (100, 1)):
        t('minpolycos', base, f'every index up to {N}, any integer argument', N=N)
    for ns in ([101, 105, 121, 128], [167, 169, 180, 210], [211, 225, 243]):
        t('larger', 1, f'the indices {ns}', ns=ns)
    for N, base in ((8, 1), (20, 1)):
        t('quantum', base, f'all pairs of indices in -{N}..{N}', N=N)
    return add_sequence(T, 'a03', 'cyclotomic-12', 'chebyshev-8', 'minpolycos-16')
