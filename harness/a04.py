"""A04: printed polynomials denote the value they print."""
import re
from peyl.lpoly import LPoly
from peyl.poly import Poly
from peyl.matrix import Matrix
from .common import Task, conc, add_sequence, sequence
from .polys import coeffs, longlist, refof

OUTSIDE = 'more terms than the stated bounds; the printing of a single integer literal is trusted'
ASSUMPTIONS = ['the digits printed for one integer by the interpreter denote that integer']

NUM = r'-?[0-9]+'


def parse(text, var, latex=False):
    """The terms of a printed polynomial: list of (sign, coefficient or None, exponent or 0 or 1), or None if malformed."""
    exp = r'\{(' + NUM + r')\}' if latex else '(' + NUM + ')'
    term = re.compile(r'(' + NUM + r')?(?:(' + var + r')(?:\^' + exp + r')?)?')
    out = []
    first = True
    while text or first:
        sign = 1
        if first:
            if text.startswith('-'):
                sign, text = -1, text[1:]
        elif text.startswith(' + '):
            text = text[3:]
        elif text.startswith(' - '):
            sign, text = -1, text[3:]
        else:
            return None
        first = False
        m = term.match(text)
        if m is None or m.end() == 0 or m.group(1) is not None and m.group(1).startswith('-'):
            return None
        text = text[m.end():]
        c = 1 if m.group(1) is None else int(m.group(1))
        e = 0 if m.group(2) is None else 1 if m.group(3) is None else int(m.group(3))
        out.append((sign * c, e))
    return out


def denotes(h, label, terms, base, ref):
    """The terms are exactly the nonzero terms of v^base * ref, in descending order."""
    h.check(label + ': readable', terms is not None)
    nonzero = [(e, c) for e, c in sorted(ref.items(), reverse=True) if c != 0]
    if not nonzero:
        h.check(label + ': zero', len(terms) == 1 and h.eq(terms[0][0], 0))
        return
    h.check(label + ': number of terms', len(terms) == len(nonzero))
    h.check(label, h.all([h.all([h.eq(c, rc), h.eq(e, base + re_)]) for (c, e), (re_, rc) in zip(terms, nonzero)]))


def unwrap(text, name):
    m = re.fullmatch(name + r"\('(.*)'\)", text)
    return m.group(1) if m else ' '


def lpoly(h, k, exps):
    if exps == 'any':
        v = h.int('v')
    else:
        v = conc(h.fin('v', *exps))
    a = coeffs(h, 'a', k)
    p = LPoly(v, a)
    ref = refof(a)
    denotes(h, 'fmt', parse(p.fmt(), 'v'), v, ref)
    denotes(h, 'repr', parse(unwrap(repr(p), 'LPoly'), 'v'), v, ref)
    denotes(h, 'latex', parse(p.fmt('latex'), 'v', True), v, ref)
    denotes(h, 'notebook', parse(p._repr_latex_().strip('$'), 'v', True), v, ref)


def lpoly_small(h, k, m, lo, hi):
    """Small coefficients: the special forms of 1, -1 and 0 in every position."""
    v = conc(h.fin('v', lo, hi))
    a = [h.fin(f'a{i}', -m, m) for i in range(k)]
    denotes(h, 'fmt', parse(LPoly(v, a).fmt(), 'v'), v, refof(a))


def poly(h, k):
    a = coeffs(h, 'a', k)
    denotes(h, 'repr', parse(unwrap(repr(Poly(*a)), 'Poly'), 'x'), 0, refof(a))


def poly_small(h, k, m):
    a = [h.fin(f'a{i}', -m, m) for i in range(k)]
    denotes(h, 'repr', parse(unwrap(repr(Poly(*a)), 'Poly'), 'x'), 0, refof(a))


BIG = [10**15 + 7, 2**53 + 1, 123456789012345678, 2**63, 10**18 + 1, 10**30 + 1, 999999, 10**6, 1000001]
BIG = BIG + [-x for x in BIG]


def big(h, what):
    """Coefficients of many digits, in every position."""
    i, j = conc(h.fin('i', 0, len(BIG) - 1)), conc(h.fin('j', 0, len(BIG) - 1))
    a = [BIG[i], 0, BIG[j], 1]
    v = conc(h.fin('v', [-2**70, -3, -2, 0, 10**16 + 1]))
    if what == 'poly':
        denotes(h, 'repr', parse(unwrap(repr(Poly(*a)), 'Poly'), 'x'), 0, refof(a))
    elif what == 'matrix':
        show_matrix(h, 2, 2, tuple(a))
    else:
        denotes(h, 'fmt', parse(LPoly(v, a).fmt(), 'v'), v, refof(a))
        denotes(h, 'latex', parse(LPoly(v, a).fmt('latex'), 'v', True), v, refof(a))
        denotes(h, 'repr', parse(unwrap(repr(LPoly(v, a)), 'LPoly'), 'v'), v, refof(a))


def rows_of(text):
    """The entries of a printed matrix, row by row."""
    return [[int(x) for x in re.split(r'[,&]', r) if x.strip()] for r in re.findall(r'\[([^\[\]]*)\]', text)]


def matrix(h, r, c):
    d = tuple(h.int(f'd{i}') for i in range(r * c))
    show_matrix(h, r, c, d)


def show_matrix(h, r, c, d):
    M = Matrix(r, c, d)
    want = [list(d[i * c:(i + 1) * c]) for i in range(r)]
    text = repr(M)
    if r and c:
        h.check('repr', text.startswith('Matrix([') and text.rstrip().endswith('])'))
        got = rows_of(text[len('Matrix('):-1].strip()[1:-1])
        h.check('repr rows', [len(x) for x in got] == [c] * r)
        h.check('repr entries', h.all([h.eq(x, y) for g, w in zip(got, want) for x, y in zip(g, w)]))
        got = rows_of(str(M)[2:-1])
        h.check('str rows', [len(x) for x in got] == [c] * r)
        h.check('str entries', h.all([h.eq(x, y) for g, w in zip(got, want) for x, y in zip(g, w)]))
        body = M._repr_latex_()
        h.check('latex', body.startswith(r'\begin{pmatrix}') and body.endswith(r'\end{pmatrix}'))
        got = [[int(x) for x in row.split('&')] for row in body[len(r'\begin{pmatrix}'):-len(r'\end{pmatrix}')].split(r'\\')]
        h.check('latex rows', [len(x) for x in got] == [c] * r)
        h.check('latex entries', h.all([h.eq(x, y) for g, w in zip(got, want) for x, y in zip(g, w)]))
    else:
        h.check('shape of an empty matrix', re.findall('[0-9]+', text) == [str(r), str(c)])


def wide(h, k, kind):
    """Sparse polynomials with exponents of several digits."""
    ref = {}
    for i in range(3):
        ref[conc(h.fin(f'e{i}', [0, 1, 9, 10, k - 1]))] = conc(h.fin(f'a{i}', [-12, 1])) if i else h.int('a')
    a = [ref.get(i, 0) for i in range(k)]
    if kind == 'poly':
        return denotes(h, 'repr', parse(unwrap(repr(Poly(*a)), 'Poly'), 'x'), 0, ref)
    v = conc(h.fin('v', [-110, -10, 0, 95]))
    p = LPoly(v, a)
    denotes(h, 'fmt', parse(p.fmt(), 'v'), v, ref)
    denotes(h, 'latex', parse(p.fmt('latex'), 'v', True), v, ref)


def long(h, k):
    """Many terms."""
    a = longlist(h, 'a', k)
    v = conc(h.fin('v', [-k - 1, -3, 0, 10]))
    denotes(h, 'fmt', parse(LPoly(v, a).fmt(), 'v'), v, refof(a))
    denotes(h, 'latex', parse(LPoly(v, a).fmt('latex'), 'v', True), v, refof(a))
    denotes(h, 'repr', parse(unwrap(repr(LPoly(v, a)), 'LPoly'), 'v'), v, refof(a))
    denotes(h, 'poly', parse(unwrap(repr(Poly(*a)), 'Poly'), 'x'), 0, refof(a))


def large_matrix(h, r, c):
    """A matrix with many entries of which three are arbitrary."""
    d = [(7 * j * j + 3) % 23 - 11 for j in range(r * c)]
    for k in range(3):
        d[conc(h.fin(f'@{k}', [0, c - 1, r * c // 2, r * c - 1]))] = h.int(f'd{k}')
    show_matrix(h, r, c, tuple(d))


def lpoly_matrix(h, r, c):
    """Entries which are Laurent polynomials keep their positions."""
    d = [LPoly(conc(h.fin(f'v{i}', [-1, 0, 10])), (i + 1, 0, -1)) for i in range(r * c)]
    M = Matrix(r, c, tuple(d))
    body = M._repr_latex_()
    got = [row.split('&') for row in body[len(r'\begin{pmatrix}'):-len(r'\end{pmatrix}')].split(r'\\')]
    h.check('rows', [len(x) for x in got] == [c] * r)
    for i in range(r):
        for j in range(c):
            x = d[i * c + j]
            text = got[i][j].strip().strip('$')
            terms = parse(text, 'v', True) or parse(text, 'v')
            denotes(h, 'entry', terms, x.val, refof(list(x.coeffs)))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    U = 'any integer coefficients'
    for k, base in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1)):
        t('lpoly', base, f'{k} coefficients, {U}, any valuation', k=k, exps='any')
        t('lpoly', base, f'{k} coefficients, {U}, valuations -4..2', k=k, exps=[-4, 2])
    for k, m, base in ((1, 12, 1), (2, 2, 1), (3, 2, 1), (4, 1, 1), (4, 2, 0)):
        t('lpoly_small', base, f'{k} coefficients in -{m}..{m}, valuations -3..2', k=k, m=m, lo=-3, hi=2)
    for k, base in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1)):
        t('poly', base, f'{k} coefficients, {U}', k=k)
    for k, m, base in ((1, 12, 1), (2, 3, 1), (3, 2, 1), (5, 1, 1), (5, 2, 0)):
        t('poly_small', base, f'{k} coefficients in -{m}..{m}', k=k, m=m)
    for r, c in ((0, 0), (0, 2), (3, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 4)):
        t('matrix', 1, f'{r} x {c}, any integer entries', r=r, c=c)
    for k, kind in ((24, 'lpoly'), (24, 'poly'), (130, 'poly')):
        t('wide', 1, f'three terms at exponents up to {k - 1} (valuations -110..95), one with any coefficient', k=k, kind=kind)
    for k in (12, 30):
        t('long', 1, f'{k} coefficients, of which one is arbitrary', k=k)
    for r, c in ((5, 7), (1, 20), (20, 1), (12, 12)):
        t('large_matrix', 1, f'{r} x {c}, three arbitrary entries', r=r, c=c)
    for what in ('lpoly', 'poly', 'matrix'):
        t('big', 1, 'two coefficients from 6 to 31 digits of either sign', what=what)
    for r, c in ((1, 1), (2, 2), (1, 3)):
        t('lpoly_matrix', 1, f'{r} x {c} Laurent polynomials', r=r, c=c)
    return add_sequence(T, 'a04', 'lpoly-0-any', 'lpoly-1-any', 'poly-1', 'matrix-1-1', 'poly_small-1-12', 'matrix-2-2')
