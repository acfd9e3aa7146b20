"""Reference polynomials for the A harnesses: dictionaries exponent -> coefficient, offsets from a base exponent."""
from .common import conc


def add(p, q, s=1):
    r = dict(p)
    for e, c in q.items():
        r[e] = r[e] + s * c if e in r else s * c
    return r


def mul(p, q):
    r = {}
    for e, c in p.items():
        for f, d in q.items():
            r[e + f] = r[e + f] + c * d if e + f in r else c * d
    return r


def scale(p, c):
    return {e: c * x for e, x in p.items()}


def power(p, n):
    r = {0: 1}
    for _ in range(n):
        r = mul(r, p)
    return r


def check_coeffs(h, label, coeffs, off, ref, zero_off=None):
    """The list of coefficients, whose first exponent is `off` (concrete), is exactly the polynomial `ref`."""
    got = {off + i: c for i, c in enumerate(coeffs)}
    exps = sorted(set(got) | set(ref))
    h.check(label, h.all([h.eq(got.get(e, 0), ref.get(e, 0)) for e in exps]))


def check_lpoly(h, label, p, base, ref):
    """The Laurent polynomial p is v^base * ref, in canonical form."""
    from peyl.lpoly import LPoly
    h.check(label + ': type', isinstance(p, LPoly) and type(p.coeffs) is tuple)
    if len(p.coeffs) == 0:
        h.check(label + ': zero', h.all([h.eq(p.val, 0)] + [h.eq(c, 0) for c in ref.values()]))
        return
    off = conc(p.val - base)
    check_coeffs(h, label, p.coeffs, off, ref)
    h.check(label + ': canonical', h.all([h.not_(h.eq(p.coeffs[0], 0)), h.not_(h.eq(p.coeffs[-1], 0))]))


def check_poly(h, label, p, ref):
    from peyl.poly import Poly
    h.check(label + ': type', isinstance(p, Poly) and type(p.coeffs) is tuple)
    check_coeffs(h, label, p.coeffs, 0, ref)
    if p.coeffs:
        h.check(label + ': canonical', h.not_(h.eq(p.coeffs[-1], 0)))


def coeffs(h, name, k):
    return [h.int(f'{name}{i}') for i in range(k)]


def refof(cs, off=0):
    return {off + i: c for i, c in enumerate(cs)}


def longlist(h, name, k, places=None, values=None):
    """A fixed list of k coefficients (some zero) in which one, at one of several places, is any integer (or one of the values)."""
    i = conc(h.fin(name + '@', sorted(set(places or [0, 1, k // 2, k - 1]))))
    cs = [(j * j * 3 + 7 * j + len(name) + 2) % 11 - 5 for j in range(k)]
    cs[i] = h.int(name) if values is None else conc(h.fin(name, values))
    return cs
