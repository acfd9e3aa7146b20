"""B07: stored braids read back unchanged."""
import sqlite3
from peyl.braid import adapt_braid, convert_braid, register_sqlite3_adapters
from .common import Ctx, Task, conc, GNF, DGNF, add_sequence, sequence

OUTSIDE = 'more strands or longer normal forms than the stated bounds; n = 1'
ASSUMPTIONS = ['printing and parsing of a single integer literal by the interpreter is exact']


def roundtrip(h, n, kind, k):
    c = Ctx(h, n, kind)
    a, p, rs = c.nf('a', k)
    text = adapt_braid(a)
    h.check('text', isinstance(text, str) and text.startswith(c.cls.__name__ + '('))
    b = convert_braid(text.encode('utf-8'))
    h.check('class', type(b) is c.cls)
    h.check('read back', h.eq(b, a))
    h.check('usable', h.all([h.eq(b.power, p), b.n == n, len(b.factors) == k] + [h.eq(x, y) for x, y in zip(b.factors, a.factors)]))
    h.observe('b', b)


class Registry:
    """Stands in for the database module while the adapters are registered."""
    def __init__(self):
        self.adapters, self.converters = {}, {}

    def register_adapter(self, cls, fn):
        self.adapters[cls] = fn

    def register_converter(self, name, fn):
        self.converters[name.upper()] = fn


def registered(h, n, kind, k):
    """What is registered with the database stores and reads back a braid unchanged, for both kinds."""
    c = Ctx(h, n, kind)
    a, p, rs = c.nf('a', k)
    R = Registry()
    saved = sqlite3.register_adapter, sqlite3.register_converter
    sqlite3.register_adapter, sqlite3.register_converter = R.register_adapter, R.register_converter
    try:
        register_sqlite3_adapters()
    finally:
        sqlite3.register_adapter, sqlite3.register_converter = saved
    h.check('registered', c.cls in R.adapters and 'BRAID' in R.converters)
    text = R.adapters[c.cls](a)
    text = text.encode('utf-8') if isinstance(text, str) else text
    b = R.converters['BRAID'](text)
    h.check('class', type(b) is c.cls)
    h.check('read back', h.eq(b, a))


def long(h, n, kind, k):
    """Long normal forms of fixed factors, one of them replaced by any that fits; any power."""
    c = Ctx(h, n, kind)
    G = c.G
    rs = [G.gens[0]] * k
    at = conc(h.fin('at', sorted({0, k // 2, k - 1})))
    for i in range(1, k):
        nxt = G.follow[rs[i - 1]]
        rs[i] = nxt[(i * 31) % len(nxt)]
    x = h.fin(f'x{at}', [y for y in G.proper if (at == 0 or G.ok[rs[at - 1]][y]) and (at == k - 1 or G.ok[y][rs[at + 1]])])
    fs = [c.torepo[r] for r in rs]
    fs[at] = c.torepo[x]
    a = c.cls(n, c.power('p'), tuple(fs))
    b = convert_braid(adapt_braid(a).encode('utf-8'))
    h.check('read back', type(b) is c.cls and h.eq(b, a))


BIG = [0, 7, -1, 99, -100, 10**4, 2**15, -2**15 - 1, 65536, 123456, 999999, 10**6, -1234567, 2**31 - 1, 2**31, -2**32 - 1, 10**10 + 1, 2**53 + 1, -2**63, 2**64 + 1, 10**25 + 7]


def magnitude(h, n, kind, k):
    """Infima of up to 26 digits, including all those at which a type or a way of printing changes."""
    c = Ctx(h, n, kind)
    p = BIG[conc(h.fin('p', 0, len(BIG) - 1))]
    a = c.cls(n, p, tuple(conc(x) for x in c.nf('a', k)[0].factors))
    b = convert_braid(adapt_braid(a).encode('utf-8'))
    h.check('read back', type(b) is c.cls and b == a and type(b.power) is int and b.power == p)


def distinct(h, n, kind, k):
    """Different braids are stored differently, and the two kinds are never confused."""
    c = Ctx(h, n, kind)
    a, p, rs = c.nf('a', k)
    b, q, ss = c.nf('b', k)
    ta, tb = adapt_braid(a), adapt_braid(b)
    x, y = convert_braid(ta.encode()), convert_braid(tb.encode())
    h.check('distinct', h.iff(h.eq(a, b), h.eq(x, y)))


def reject(h, n, kind):
    """Text that does not denote a braid is rejected: altered prefixes, and factor sequences that are not normal forms."""
    c = Ctx(h, n, kind)
    G = c.G
    rs, fs = c.simples('x', 2)
    p = conc(h.fin('p', -2, 2))
    fs = [conc(f) for f in fs]
    good = G.ok[conc(rs[0])][conc(rs[1])] and conc(rs[0]) != G.D and conc(rs[1]) != G.id
    name = h.choice('name', ['GNF', 'DGNF', 'NF', 'gnf', '', 'XGNF', 'DDGNF'])
    text = f'{name}({n}, {p}, ({fs[0]}, {fs[1]}))'.encode()
    if name == c.cls.__name__ and good:
        h.check('accepted', h.eq(convert_braid(text), c.cls(n, p, tuple(fs))))
    elif name not in ('GNF', 'DGNF'):
        h.check('unknown kind rejected', h.raises(ValueError, lambda: convert_braid(text)))
    elif name == c.cls.__name__:
        h.check('not a normal form: rejected', h.raises((AssertionError, ValueError), lambda: convert_braid(text)))
    else:
        h.check('other kind', True)


def out_of_range(h, n, kind, k):
    """Numbers that index no simple element, anywhere among the factors, are rejected; numbers that do are judged as usual."""
    c = Ctx(h, n, kind)
    G = c.G
    fs = [conc(h.fin(f'f{i}', -3, G.N + 2)) for i in range(k)]
    good = all(0 <= f < G.N for f in fs)
    if good:
        rs = [c.toref[f] for f in fs]
        good = rs[0] != G.D and rs[-1] != G.id and all(G.ok[x][y] for x, y in zip(rs, rs[1:]))
    inner = ', '.join(str(f) for f in fs) + (',' if k == 1 else '')
    text = f'{c.cls.__name__}({n}, 1, ({inner}))'.encode()
    if good:
        h.check('accepted', h.eq(convert_braid(text), c.cls(n, 1, tuple(fs))))
    else:
        h.check('rejected', h.raises((AssertionError, ValueError, IndexError), lambda: convert_braid(text)))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for kind in ('gnf', 'dgnf'):
        for n, k, base in ((2, 0, 1), (3, 0, 1), (3, 1, 1), (3, 8, 1), (4, 1, 1), (4, 2, 1), (4, 6, 1), (5, 2, 1), (5, 4, 1)):
            t('roundtrip', base, f'{n} strands, {k} factors, any power', n=n, kind=kind, k=k)
        for n, k in ((3, 40), (4, 30), (5, 20)) + (((6, 12),) if kind == 'dgnf' else ()):
            t('long', 1, f'{n} strands, {k} fixed factors, one replaced by any that fits, any power', n=n, kind=kind, k=k)
        for n, k in ((2, 0), (3, 1), (4, 1)):
            t('magnitude', 1, f'{n} strands, {k} factors, each of {len(BIG)} powers of up to 26 digits', n=n, kind=kind, k=k)
        for n, k in ((2, 0), (3, 2), (4, 2)):
            t('registered', 1, f'{n} strands, {k} factors, any power', n=n, kind=kind, k=k)
        for n, k, base in ((3, 2, 1), (4, 1, 1), (4, 2, 1)):
            t('distinct', base, f'{n} strands, {k} factors, any powers', n=n, kind=kind, k=k)
        for n, k in ((2, 1), (3, 1), (3, 2), (4, 1)):
            t('out_of_range', 1, f'{n} strands, every {k} integers up to 3 outside the range of the simples', n=n, kind=kind, k=k)
        t('reject', 1, '3 strands, every two simples, powers -2..2, several prefixes', n=3, kind=kind)
        t('reject', 0, '4 strands, every two simples, powers -2..2, several prefixes', n=4, kind=kind)
    return add_sequence(T, 'b07', 'roundtrip-3-gnf-1', 'roundtrip-4-gnf-1', 'roundtrip-3-dgnf-1', 'roundtrip-4-dgnf-1', 'out_of_range-2-gnf-1', 'roundtrip-3-gnf-8')
