"""B05: conversion between the two normal forms is an isomorphism."""
import itertools

from .common import Ctx, Task, conc, GNF, DGNF, add_sequence, sequence
from . import ref

OUTSIDE = 'more strands, longer normal forms or larger powers than the stated bounds; n = 1'


def _redword(w):
    """A reduced word of a permutation (reference)."""
    w = list(w)
    out = []
    while True:
        for i in range(len(w) - 1):
            if w[i] > w[i + 1]:
                w[i], w[i + 1] = w[i + 1], w[i]
                out.append(i)
                break
        else:
            return out[::-1]


class Spell:
    """Spells the simple elements of one structure as sequences of simples of the other one (reference)."""
    def __init__(self, src, dst):
        self.src, self.dst = src, dst
        n = src.n
        self.items = []
        for w in src.els:
            if src.kind == 'gnf':
                word = [(i, 1) for i in _redword(w)]
            else:
                # shortest positive word in the dual atoms a(i,j), each rewritten in Artin letters; found by search in the
                # partial product of the dual structure
                word = self._atoms(src, w)
            its = []
            for i, e in word:
                g = dst.gens[i]
                its.append((0, [g]) if e > 0 else (-1, [dst.lcomp[g]]))
            # D^p1 s1 D^p2 s2 ... -> D^p seq
            total, seq = 0, []
            for p, s in reversed(its):
                seq = [dst.tau_pow[total % dst.tau_order][x] for x in s] + seq
                total += p
            seq = dst.normalise(seq)
            while seq and seq[0] == dst.D:
                seq, total = seq[1:], total + 1
            while seq and seq[-1] == dst.id:
                seq = seq[:-1]
            self.items.append((total, seq))
        self.kmax = max(len(s) for _, s in self.items)

    @staticmethod
    def _atoms(G, w):
        n = G.n
        x = G.idx[w]
        out = []
        while x != G.id:
            for i in range(n):
                hit = None
                for j in range(i + 1, n):
                    a = G.idx[ref.ptrans(n, i, j)]
                    for g, z in G.prefix[x]:
                        if g == a:
                            hit = (i, j, z)
                            break
                    if hit:
                        break
                if hit:
                    break
            i, j, x = hit
            out.append((i, j))
        return [l for i, j in out for l in band(G.n, i, j)]


_band = {}


def band(n, i, j):
    """The atom with underlying transposition (i j), as an Artin word. In the dual structure with Garside element d, conjugation
    by d permutes the atoms cyclically, so a(i+1, i+2) determines a(i, i+1), and a(i, j) a(j, j+1) = d-simple of three
    points = a(j, j+1) a(i, j+1) fixes the rest."""
    if j == i + 1:
        return [(i, 1)]
    G = ref.garside(n, 'dgnf')
    # t * a = a * b for the simple of three points {i, j-1, j}: solve a(i,j) = a(j-1,j)^e a(i,j-1) a(j-1,j)^-e
    x, y, z = (G.idx[ref.ptrans(n, *t)] for t in ((i, j - 1), (j - 1, j), (i, j)))
    if G.prod[z][y] is not None and G.prod[z][y] == G.prod[y][x]:
        # z y = y x  ->  z = y x y^-1
        return [(j - 1, 1)] + band(n, i, j - 1) + [(j - 1, -1)]
    assert G.prod[y][z] is not None and G.prod[y][z] == G.prod[x][y], (n, i, j)
    # y z = x y -> z = y^-1 x y
    return [(j - 1, -1)] + band(n, i, j - 1) + [(j - 1, 1)]


_spells = {}


def spell(src, dst):
    k = (src.n, src.kind)
    if k not in _spells:
        _spells[k] = Spell(src, dst)
    return _spells[k]


def convert(nf, kind):
    return nf.to_DGNF() if kind == 'gnf' else nf.to_GNF()


def conversion(h, n, kind, k, pmax):
    """Conversion of a symbolic normal form against the reference, and back."""
    okind = 'dgnf' if kind == 'gnf' else 'gnf'
    c, o = Ctx(h, n, kind), Ctx(h, n, okind)
    S = spell(c.G, o.G)
    h.freeze(S)
    p = conc(h.fin('p', -pmax, pmax))
    a, p, rs = c.nf('a', k, power=p)
    b = convert(a, kind)
    # the reference image of every simple, padded to the same length
    pad = [(q, s + [o.G.id] * (S.kmax - len(s))) for q, s in S.items]
    pows = [q for q, _ in pad]
    cols = [[s[i] for _, s in pad] for i in range(S.kmax)]
    h.freeze(S)
    items = [pad[c.G.D]] * p if p >= 0 else _inv(o, pad[c.G.D]) * -p
    for x in rs:
        items.append((conc(pows[x]), [col[x] for col in cols]))
    d, seq = o.mulseq(items)
    o.check_same('conversion', b, d, seq)
    h.check('and back', h.eq(convert(b, okind), a))


def _inv(o, item):
    q, s = item
    return [(-1, [o.G.lcomp[x]]) for x in reversed(s)] + [(-q, [])]


def homomorphism(h, n, kind, ka, kb, pmax):
    c = Ctx(h, n, kind)
    p, q = conc(h.fin('p', -pmax, pmax)), conc(h.fin('q', -pmax, pmax))
    a, _, _ = c.nf('a', ka, power=p)
    b, _, _ = c.nf('b', kb, power=q)
    x, y, z = convert(a, kind), convert(b, kind), convert(a * b, kind)
    h.check('product', h.eq(x * y, z))
    h.check('inverse', h.eq(convert(a.inv(), kind), x.inv()))
    h.observe('z', z)


def words(h, n, L):
    """Both normal forms of a word convert into each other."""
    c, o = Ctx(h, n, 'gnf'), Ctx(h, n, 'dgnf')
    w = c.word('w', L)
    a, b = GNF.from_artin_word(n, w), DGNF.from_artin_word(n, w)
    h.check('to dual', h.eq(a.to_DGNF(), b))
    h.check('to classical', h.eq(b.to_GNF(), a))
    h.observe('ab', [a, b])


def sizes(h, kind, n, m, k):
    """The same numbers of factors, for n and m strands, one after the other."""
    okind = 'dgnf' if kind == 'gnf' else 'gnf'
    cs = {x: Ctx(h, x, kind) for x in (n, m)}

    def valid(c, fs):
        rs = [c.toref[f] if f < len(c.toref) else None for f in fs]
        return all(r in c.G.proper for r in rs) and all(c.G.ok[a][b] for a, b in zip(rs, rs[1:]))
    N = min(len(c.toref) for c in cs.values())
    common = [fs for fs in itertools.product(range(N), repeat=k) if all(valid(c, fs) for c in cs.values())]
    common = common[::max(1, len(common) // 12)]
    fs = common[conc(h.fin('fs', 0, len(common) - 1))]
    p = conc(h.fin('p', [-1, 0, 1]))
    for x in (n, m, n):
        c, o = cs[x], Ctx(h, x, okind)
        S = spell(c.G, o.G)
        items = [S.items[c.G.D]] * p if p >= 0 else _inv(o, S.items[c.G.D]) * -p
        items += [S.items[c.toref[f]] for f in fs]
        d, seq = o.mulseq(items)
        b = convert(c.cls(x, p, fs), kind)
        o.check_same(f'conversion for {x} strands', b, d, seq)
        h.check('and back', h.eq(convert(b, okind), c.cls(x, p, fs)))


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()), fn, kw, bound, base))
    for kind in ('gnf', 'dgnf'):
        for n, k, pm, base in ((2, 0, 4, 1), (3, 0, 5, 1), (2, 0, 15, 1), (3, 0, 14, 1), (3, 1, 8, 1), (4, 0, 9, 1), (3, 2, 4, 1), (3, 4, 2, 1), (4, 0, 5, 1), (4, 1, 3, 1), (4, 2, 2, 1), (4, 3, 1, 1), (5, 0, 5, 1), (5, 1, 2, 1), (5, 2, 0, 1), (4, 4, 0, 0), (3, 7, 1, 0), (5, 2, 1, 0)):
            t('conversion', base, f'{n} strands, {k} factors, powers -{pm}..{pm}', n=n, kind=kind, k=k, pmax=pm)
        for n, ka, kb, pm, base in ((3, 1, 1, 1, 1), (3, 2, 2, 1, 1), (4, 1, 1, 1, 1), (4, 2, 1, 0, 1), (4, 2, 2, 0, 0), (5, 1, 1, 0, 0)):
            t('homomorphism', base, f'{n} strands, {ka} and {kb} factors, powers -{pm}..{pm}', n=n, kind=kind, ka=ka, kb=kb, pmax=pm)
        for n, m, k in ((3, 4, 2), (4, 3, 2), (4, 5, 2), (5, 4, 1), (3, 4, 3)):
            t('sizes', 1, f'{k} factors with the same numbers for {n} and {m} strands', kind=kind, n=n, m=m, k=k)
    for n, L, base in ((2, 5, 1), (3, 5, 1), (4, 3, 1), (4, 4, 1), (5, 3, 1), (3, 6, 0), (4, 5, 0), (5, 4, 0)):
        t('words', base, f'{n} strands, every word of {L} signed letters', n=n, L=L)
    return add_sequence(T, 'b05', 'conversion-2-gnf-0-4', 'conversion-3-gnf-0-5', 'conversion-4-dgnf-0-5', 'conversion-3-dgnf-0-5', 'conversion-2-dgnf-0-4')
