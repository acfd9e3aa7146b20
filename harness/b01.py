"""B01: words that represent the same braid have the same normal form."""
from .common import Ctx, Task, conc

OUTSIDE = 'more strands or longer words than the stated bounds; n = 1; exponents beyond the stated range'


def word_vs_ref(h, n, kind, L):
    c = Ctx(h, n, kind)
    w = c.word('w', L)
    r = c.refword(w)
    nf = c.cls.from_artin_word(n, w)
    p, seq = c.mulseq(r)
    c.check_same('normal form of the word', nf, p, seq)


def exponents(h, n, kind, L, emax):
    """Letters with exponents in [-emax, emax]."""
    c = Ctx(h, n, kind)
    w = [h.choice(f'w{i}', [(g, e) for g in range(n - 1) for e in range(-emax, emax + 1)]) for i in range(L)]
    r = c.refword(w)
    nf = c.cls.from_artin_word(n, w)
    p, seq = c.mulseq(r)
    c.check_same('normal form of the word', nf, p, seq)


def context(h, n, kind, emax):
    """One letter with a large exponent between two others."""
    c = Ctx(h, n, kind)
    w = [(g, e) for g, e in c.word('u', 1)] + [h.choice('w', [(g, e) for g in range(n - 1) for e in range(-emax, emax + 1)])] + c.word('v', 1)
    c.check_same('normal form of the word', c.cls.from_artin_word(n, w), *c.mulseq(c.refword(w)))


def relator(h, n, kind, la, lb, which):
    """u lhs v and u rhs v have the same normal form for every relation lhs = rhs of the braid group."""
    c = Ctx(h, n, kind)
    u, v = c.word('u', la), c.word('v', lb)
    if which == 'cancel':
        rels = [([(i, e), (i, -e)], []) for i in range(n - 1) for e in (1, -1)]
    elif which == 'braid':
        rels = [([(i, e), (i + 1, e), (i, e)], [(i + 1, e), (i, e), (i + 1, e)]) for i in range(n - 2) for e in (1, -1)]
        rels += [([(i, 1), (i + 1, 1), (i, -1)], [(i + 1, -1), (i, 1), (i + 1, 1)]) for i in range(n - 2)]
    else:
        rels = [([(i, e), (j, f)], [(j, f), (i, e)]) for i in range(n - 1) for j in range(i + 2, n - 1)
                for e in (1, -1) for f in (1, -1)]
    lhs, rhs = h.choice('rel', rels)
    a = c.cls.from_artin_word(n, u + list(lhs) + v)
    b = c.cls.from_artin_word(n, u + list(rhs) + v)
    h.check('same inf', h.eq(a.power, b.power))
    h.check('same canonical length', len(a.factors) == len(b.factors))
    h.check('same normal form', h.eq(a, b))
    h.observe('nf', a)


def history(h, n, L, emax):
    """The normal form of a word does not depend on the words that were treated before."""
    c, d = Ctx(h, n, 'gnf'), Ctx(h, n, 'dgnf')
    w = [h.choice(f'w{i}', [(g, 1 if i % 2 else -1) for g in range(n - 1)]) for i in range(L)]
    at = conc(h.fin('at', 0, L - 1))
    other = h.choice('other', [(g, e) for g in range(n - 1) for e in range(-emax, emax + 1)])
    v = w[:at] + [other] + w[at + 1:]
    for label, x in (('first', w), ('second', v), ('again', w)):
        for C in (c, d):
            nf = C.cls.from_artin_word(n, x)
            C.check_same(label, nf, *C.mulseq(C.refword(x)))


def pattern(n, L, s=5):
    """A fixed word that looks arbitrary."""
    out, x = [], s
    for _ in range(L):
        x = (x * 1103515245 + 12345) % 2**31
        out.append((x // 7 % (n - 1), 1 if x // 65536 % 3 else -1))
    return out


def long(h, n, kind, L, emax):
    """A long word with one letter that is arbitrary, anywhere."""
    c = Ctx(h, n, kind)
    at = conc(h.fin('at', [0, 1, L // 2, L - 1]))
    w = pattern(n, L)
    w[at] = h.choice('w', [(g, e) for g in range(n - 1) for e in range(-emax, emax + 1)])
    c.check_same('normal form of the word', c.cls.from_artin_word(n, w), *c.mulseq(c.refword(w)))


def mixed(h, kinds, L):
    """Groups of several numbers of strands one after the other."""
    ns = [conc(h.fin(f'n{i}', 2, 4)) for i in range(3)]
    for i, (n, kind) in enumerate(zip(ns, kinds)):
        C = Ctx(h, n, kind)
        w = C.word(f'w{i}of{n}', L)
        C.check_same(f'word {i}', C.cls.from_artin_word(n, w), *C.mulseq(C.refword(w)))


def tasks(tier):
    T = []
    for kind in ('gnf', 'dgnf'):
        for n, L in ((2, 4), (3, 4), (4, 3), (5, 2)):
            T.append(Task(f'word-{kind}-n{n}-L{L}', 'word_vs_ref', dict(n=n, kind=kind, L=L), f'{n} strands, every word of {L} signed letters'))
        for n, la, lb in ((3, 1, 1), (4, 1, 1)):
            for which in ('cancel', 'braid') + (('far',) if n >= 4 else ()):
                T.append(Task(f'rel-{which}-{kind}-n{n}-{la}{lb}', 'relator', dict(n=n, kind=kind, la=la, lb=lb, which=which),
                              f'{n} strands, relation in the context of {la}+{lb} letters'))
        T.append(Task(f'exp-{kind}-n3', 'exponents', dict(n=3, kind=kind, L=2, emax=2), '3 strands, 2 letters with exponents -2..2'))
        for n, L, emax in ((2, 2, 12), (3, 1, 20), (3, 2, 5), (4, 1, 9), (5, 1, 6)):
            T.append(Task(f'exp-{kind}-n{n}-L{L}-e{emax}', 'exponents', dict(n=n, kind=kind, L=L, emax=emax), f'{n} strands, {L} letters with exponents -{emax}..{emax}'))
        T.append(Task(f'context-{kind}', 'context', dict(n=3, kind=kind, emax=10), '3 strands, a letter with exponents -10..10 between two signed letters'))
    for n, L, emax, base in ((3, 6, 2, True), (4, 4, 2, True), (3, 8, 2, False)):
        T.append(Task(f'history-n{n}-L{L}', 'history', dict(n=n, L=L, emax=emax), f'{n} strands, words of {L} letters of alternating signs, then one letter changed to any with exponents up to {emax}', base))
    for kinds in (('gnf', 'gnf', 'gnf'), ('dgnf', 'dgnf', 'dgnf'), ('gnf', 'dgnf', 'gnf')):
        T.append(Task('mixed-' + '-'.join(kinds), 'mixed', dict(kinds=kinds, L=2), 'any three of 2, 3 and 4 strands one after the other, words of 2 letters'))
    for n, kind, L, emax, base in ((3, 'gnf', 24, 3, True), (3, 'dgnf', 24, 3, True), (4, 'gnf', 18, 2, True), (4, 'dgnf', 18, 2, True), (5, 'dgnf', 16, 1, True), (5, 'gnf', 12, 1, True), (3, 'gnf', 60, 1, False), (3, 'dgnf', 40, 1, False), (6, 'dgnf', 8, 1, True), (6, 'gnf', 4, 1, False), (7, 'dgnf', 4, 1, False)):
        T.append(Task(f'long-{kind}-n{n}-L{L}', 'long', dict(n=n, kind=kind, L=L, emax=emax), f'{n} strands, a fixed word of {L} letters in which one letter is replaced by any with exponent up to {emax}', base))
    return T
