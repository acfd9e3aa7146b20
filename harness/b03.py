"""B03: product, inverse and powers of normal forms are the group operations."""
from .common import Ctx, Task, conc, GNF, DGNF, add_sequence, sequence

OUTSIDE = 'more strands or longer normal forms than the stated bounds; n = 1; exponents of powers beyond the stated range'


def inverse_items(c, p, rs):
    """Reference items of (D^p r1 ... rk)^-1."""
    G = c.G
    return [(-1, [G.lcomp[x]]) for x in reversed(rs)] + [(-p, [])]


def product(h, n, kind, ka, kb):
    c = Ctx(h, n, kind)
    a, p, rs = c.nf('a', ka)
    b, q, ss = c.nf('b', kb)
    d, seq = c.mulseq([(p, rs), (q, ss)])
    c.check_same('product', a * b, d, seq)
    h.check('operands unchanged', h.all([h.eq(a.power, p), h.eq(b.power, q)]))


def inverse(h, n, kind, k):
    c = Ctx(h, n, kind)
    a, p, rs = c.nf('a', k)
    d, seq = c.mulseq(inverse_items(c, p, rs))
    b = a.inv()
    c.check_same('inverse', b, d, seq)
    e = c.cls.identity(n)
    h.check('a a^-1 = 1', h.eq(a * b, e))
    h.check('a^-1 a = 1', h.eq(b * a, e))


def power(h, n, kind, k, lo, hi):
    c = Ctx(h, n, kind)
    a, p, rs = c.nf('a', k)
    e = conc(h.fin('e', lo, hi))
    items = [(p, rs)] * e if e >= 0 else inverse_items(c, p, rs) * -e
    d, seq = c.mulseq(items)
    c.check_same('power', a ** e, d, seq)


def delta_power(h, n, kind, emax):
    """(D^p)^e = D^(pe) for unbounded p."""
    c = Ctx(h, n, kind)
    a, p, _ = c.nf('a', 0)
    e = conc(h.fin('e', -emax, emax))
    r = a ** e
    h.check('power of the Garside element', h.all([h.eq(r.power, p * e), len(r.factors) == 0]))


def assoc(h, n, kind, ka, kb, kc):
    c = Ctx(h, n, kind)
    a, _, _ = c.nf('a', ka)
    b, _, _ = c.nf('b', kb)
    d, _, _ = c.nf('c', kc)
    l, r = (a * b) * d, a * (b * d)
    h.check('associativity', h.eq(l, r))
    h.observe('abc', [l, r])


def history(h, n, kind, steps, k):
    """A running product built by symbolic operations: multiply by a generator, its inverse, an arbitrary normal form,
    invert, or square."""
    c = Ctx(h, n, kind)
    G = c.G
    acc, p, rs = c.nf('a', k)
    items = [(p, rs)]
    gens = c.cls.artin_gens(n)
    for i in range(steps):
        op = conc(h.fin(f'op{i}', 0, 4))
        if op <= 1:
            g = h.choice(f'g{i}', list(range(n - 1)))
            gen = gens[g]
            r = G.gens[g]
            if op == 0:
                acc = acc * gen
                items = items + [(0, [r])]
            else:
                acc = gen.inv() * acc
                items = [(-1, [G.lcomp[r]])] + items
        elif op == 2:
            acc = acc.inv()
            items = [y for q, s in reversed(items) for y in ([(-1, [G.lcomp[x]]) for x in reversed(s)] + [(-q, [])])]
        elif op == 3:
            q = c.power(f'q{i}')
            acc = c.cls(n, q, ()) * acc
            items = [(q, [])] + items
        else:
            q = c.power(f'q{i}')
            acc = acc * c.cls(n, q, ())
            items = items + [(q, [])]
        d, seq = c.mulseq(items)
        c.check_same(f'after step', acc, d, seq)


def refuse(h, n, m, kind):
    """Elements of different groups or kinds do not multiply."""
    c, e = Ctx(h, n, kind), Ctx(h, m, kind)
    a, _, _ = c.nf('a', 1)
    b, _, _ = e.nf('b', 1)
    h.check('different groups are refused', h.raises(ValueError, lambda: a * b))
    other = Ctx(h, n, 'dgnf' if kind == 'gnf' else 'gnf')
    x, _, _ = other.nf('x', 1)
    h.check('different kinds are refused', h.raises(TypeError, lambda: a * x))


def denormal(h, n, kind, k):
    """A sequence that is not left-weighted is refused by the constructor, one that is left-weighted is accepted."""
    c = Ctx(h, n, kind)
    G = c.G
    rs, fs = c.simples('x', k)
    good = h.all([G.ok[x][y] for x, y in zip(rs, rs[1:])] + [h.not_(h.eq(rs[0], G.D)), h.not_(h.eq(rs[-1], G.id))])
    refused = h.raises(AssertionError, lambda: c.cls(n, 0, tuple(fs)))
    h.check('constructor accepts exactly the normal forms', h.iff(not refused, good))


def long(h, n, kind, k, l):
    """Products, inverses and powers of long normal forms with one arbitrary factor in the middle of the word they come from."""
    from .b01 import pattern
    c = Ctx(h, n, kind)
    G = c.G
    items, forms = [], []
    for name, m, seed in (('a', k, 3), ('b', l, 8)):
        fs = [G.gens[i] if e > 0 else G.lcomp[G.gens[i]] for i, e in pattern(n, m, seed)]
        if name == 'a':
            fs[m // 2] = h.fin(name, G.proper)
        p = conc(h.fin('p', [-1, 0, 2])) if name == 'b' else 1
        items.append((p, fs))
        T = c.T
        d, out = T.normalise_factors([c.torepo[x] for x in fs])
        forms.append(c.cls(n, p + d, out))
    a, b = forms
    c.check_same('normal form', a, *c.mulseq(items[:1]))
    c.check_same('product', a * b, *c.mulseq(items))
    i = a.inv()
    h.check('inverse', h.all([h.eq(a * i, c.cls(n, 0, ())), h.eq(i * a, c.cls(n, 0, ()))]))


def longpower(h, n, kind, k, emax):
    """Higher powers of a form with one arbitrary factor, any power of the Garside element."""
    c = Ctx(h, n, kind)
    G = c.G
    fs = [G.gens[i % (n - 1)] for i in range(k)]
    fs[k // 2] = conc(h.fin('x', G.proper))
    d, out = c.T.normalise_factors([c.torepo[x] for x in fs])
    p = c.power('p') if n == 3 else conc(h.fin('p', -1, 1))
    e = conc(h.fin('e', -emax, emax))
    a = c.cls(n, p + d, tuple(out))
    c.check_same('power', a ** e, *c.mulseq([(p, fs)] * e if e >= 0 else inverse_items(c, p, fs) * -e))


def longinverse(h, n, kind, ks):
    """Inverses of long normal forms, and powers and products of them, which begin with any proper simple element."""
    c = Ctx(h, n, kind)
    G = c.G
    back = {c.torepo[r]: r for r in range(G.N)}
    k = ks[conc(h.fin('k', 0, len(ks) - 1))]
    p = conc(h.fin('p', [-3, 0, 1] if n == 3 else [-1, 0]))
    ys = [c.torepo[conc(h.fin('x', G.proper))]]
    step = conc(h.fin('step', 0, 1))
    while len(ys) < k:
        f = c.T.follows[ys[-1]]
        ys.append(f[(len(ys) * (step + 1) + step) % len(f)])
    a = c.cls(n, p, tuple(ys))
    rs = [back[y] for y in ys]
    b = a.inv()
    c.check_same('inverse', b, *c.mulseq(inverse_items(c, p, rs)))
    e = c.cls.identity(n)
    h.check('a a^-1 = 1', a * b == e and b * a == e)
    h.check('inverse of the inverse', b.inv() == a)


def longproduct(h, n, kind, k):
    """A long power of a simple element times any form with at most two factors, on either side."""
    c = Ctx(h, n, kind)
    G = c.G
    g, x = conc(h.fin('g', G.proper)), conc(h.fin('x', 0, G.N - 1))
    items = [(0, [g] * k), (0, [x, g] if n == 3 else [x])]
    if conc(h.fin('swap', [0, 1])):
        items.reverse()
    forms = []
    for _, fs in items:
        d, out = c.T.normalise_factors([c.torepo[y] for y in fs])
        forms.append(c.cls(n, d, tuple(out)))
    c.check_same('product', forms[0] * forms[1], *c.mulseq(items))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for kind in ('gnf', 'dgnf'):
        for n, ka, kb, base in ((2, 0, 0, 1), (3, 2, 2, 1), (3, 3, 3, 1), (4, 1, 1, 1), (4, 2, 1, 1), (4, 1, 2, 1), (4, 2, 2, 1), (4, 0, 2, 1), (5, 1, 1, 1),
                                (3, 4, 4, 0), (4, 3, 2, 0), (4, 2, 3, 0), (4, 3, 3, 0), (5, 2, 1, 0), (5, 1, 2, 0)):
            t('product', base, f'{n} strands, {ka} and {kb} factors, any powers of the Garside element', n=n, kind=kind, ka=ka, kb=kb)
        for n, k, base in ((2, 0, 1), (3, 3, 1), (4, 2, 1), (4, 3, 1), (5, 1, 1), (3, 5, 0), (4, 4, 0), (5, 2, 0)):
            t('inverse', base, f'{n} strands, {k} factors, any power', n=n, kind=kind, k=k)
        for n, k, lo, hi, base in ((2, 0, -3, 3, 1), (3, 1, -9, 9, 1), (3, 2, -2, 3, 1), (3, 0, -20, 20, 1), (4, 1, -3, 3, 1), (4, 2, -2, 2, 0), (5, 1, -2, 2, 0)):
            t('power', base, f'{n} strands, {k} factors, any power, exponents {lo}..{hi}', n=n, kind=kind, k=k, lo=lo, hi=hi)
        t('delta_power', 1, '4 strands, any power, exponents -9..9', n=4, kind=kind, emax=9)
        for n, a, b, d, base in ((3, 1, 1, 1, 1), (3, 2, 1, 2, 1), (4, 1, 1, 1, 1), (4, 2, 1, 1, 0), (5, 1, 1, 1, 0)):
            t('assoc', base, f'{n} strands, {a}, {b}, {d} factors, any powers', n=n, kind=kind, ka=a, kb=b, kc=d)
        for n, s, k, base in ((3, 2, 1, 1), (4, 2, 1, 1), (3, 3, 2, 0), (4, 3, 1, 0)):
            t('history', base, f'{n} strands, {s} operations on a form of {k} factors', n=n, kind=kind, steps=s, k=k)
        t('refuse', 1, '3 and 4 strands', n=3, m=4, kind=kind)
        for n, k, base in ((3, 3, 1), (4, 3, 1), (5, 2, 1)):
            t('denormal', base, f'{n} strands, every sequence of {k} simples', n=n, kind=kind, k=k)
    for n, kind, k, l, base in ((3, 'gnf', 24, 20, 1), (3, 'dgnf', 24, 20, 1), (4, 'gnf', 12, 9, 1), (4, 'dgnf', 12, 9, 1), (5, 'dgnf', 8, 6, 1), (5, 'gnf', 5, 4, 1), (3, 'gnf', 60, 50, 0)):
        t('long', base, f'{n} strands, product of {k} and {l} fixed simple elements with one of the former replaced by any, several powers', n=n, kind=kind, k=k, l=l)
        if n == 4 or l == 20:
            t('longproduct', base, f'{n} strands, 60 copies of any proper simple element times any one or two more, on either side', n=n, kind=kind, k=60)
            t('longinverse', base, f'{n} strands, forms of 6 to 40 factors of which the first is any proper simple element', n=n, kind=kind, ks=(9, 16, 33, 40) if n == 3 else (6, 13, 20))
            t('longpower', base, f'{n} strands, powers of a fixed form with one arbitrary factor, exponents up to 9', n=n, kind=kind, k=3, emax=9 if n == 3 else 6)
    return add_sequence(T, 'b03', 'product-2-gnf-0-0', 'product-3-dgnf-2-2', 'inverse-3-gnf-3', 'inverse-3-dgnf-3', 'product-4-dgnf-0-2')
