"""
Independent reference objects (no code of the package under test): permutations as tuples, noncrossing partitions as
products of disjoint parallel descending cycles, brute-force Garside tables, and a right-to-left normaliser.
"""
import itertools

# ---- permutations: x[i] is the image of i; mul(x, y) applies y, then x --------------------------------------------


def pmul(x, y):
    return tuple(x[j] for j in y)


def pinv(x):
    r = [0] * len(x)
    for i, v in enumerate(x):
        r[v] = i
    return tuple(r)


def plen(x):
    return sum(1 for i, j in itertools.combinations(range(len(x)), 2) if x[i] > x[j])


def pcycles(x):
    seen, out = set(), []
    for i in range(len(x)):
        if i in seen:
            continue
        c, j = [], i
        while j not in seen:
            seen.add(j)
            c.append(j)
            j = x[j]
        out.append(tuple(c))
    return out


def preflen(x):
    return len(x) - len(pcycles(x))


def ptrans(n, i, j):
    r = list(range(n))
    r[i], r[j] = r[j], r[i]
    return tuple(r)


# ---- noncrossing partitions ---------------------------------------------------------------------------------------

def set_partitions(xs):
    if not xs:
        yield []
        return
    a, rest = xs[0], xs[1:]
    for p in set_partitions(rest):
        yield [[a]] + p
        for k in range(len(p)):
            yield p[:k] + [[a] + p[k]] + p[k + 1:]


def crossing(p):
    """Do two different blocks cross: a < b < c < d with a, c in one block and b, d in another?"""
    for A, B in itertools.permutations(p, 2):
        for a, c in itertools.combinations(sorted(A), 2):
            if any(a < b < c for b in B) and any(d < a or d > c for d in B):
                return True
    return False


def noncrossing_partitions(n):
    out = []
    for p in set_partitions(list(range(n))):
        if not crossing(p):
            out.append(tuple(sorted(tuple(sorted(b)) for b in p)))
    return sorted(out)


def descending_perm(n, blocks):
    """The permutation whose cycles send each element of a block to the next smaller one (cyclically)."""
    r = list(range(n))
    for b in blocks:
        b = sorted(b)
        for k, v in enumerate(b):
            r[v] = b[k - 1]
    return tuple(r)


# ---- Garside structures -------------------------------------------------------------------------------------------

_cache = {}


class Garside:
    """Simple elements as permutations, with a length function that is additive exactly on the products of braids."""

    def __init__(self, n, kind):
        self.n, self.kind = n, kind
        if kind == 'gnf':
            self.els = sorted(itertools.permutations(range(n)))
            ln = plen
            self.D_perm = tuple(range(n - 1, -1, -1))
        else:
            self.parts = noncrossing_partitions(n)
            self.els = [descending_perm(n, p) for p in self.parts]
            ln = preflen
            self.D_perm = descending_perm(n, [range(n)])
        els = self.els
        self.N = len(els)
        self.idx = {w: i for i, w in enumerate(els)}
        self.len = [ln(w) for w in els]
        self.id = self.idx[tuple(range(n))]
        self.D = self.idx[self.D_perm]
        idx, L = self.idx, self.len
        # partial product: defined when the product of the lifts is again simple
        self.prod = [[None] * self.N for _ in els]
        for i, x in enumerate(els):
            for j, y in enumerate(els):
                k = idx.get(pmul(x, y))
                if k is not None and L[k] == L[i] + L[j]:
                    self.prod[i][j] = k
        # left divisions of y: pairs (g, z) with y = g z
        self.prefix = [[] for _ in els]
        for g in range(self.N):
            for z in range(self.N):
                k = self.prod[g][z]
                if k is not None:
                    self.prefix[k].append((g, z))
        # left-weighted form of a pair: move the longest prefix of y that x can absorb
        self.pair = []
        for x in range(self.N):
            row = []
            px = self.prod[x]
            for y in range(self.N):
                best = None
                for g, z in self.prefix[y]:
                    if px[g] is not None and (best is None or L[g] > best[0]):
                        best = (L[g], px[g], z)
                row.append((best[1], best[2]))
            self.pair.append(row)
        self.ok = [[self.pair[x][y] == (x, y) for y in range(self.N)] for x in range(self.N)]
        D = self.D_perm
        self.tau = [idx[pmul(pmul(pinv(D), w), D)] for w in els]      # D^-1 x D
        self.tau_order = 2 if kind == 'gnf' else n
        t = list(range(self.N))
        self.tau_pow = []
        for k in range(self.tau_order):
            self.tau_pow.append(t)
            t = [self.tau[v] for v in t]
        assert t == list(range(self.N))
        self.lcomp = [idx[pmul(D, pinv(w))] for w in els]             # D = lcomp(x) x
        self.rcomp = [idx[pmul(pinv(w), D)] for w in els]             # D = x rcomp(x)
        self.gens = [idx[ptrans(n, i, i + 1)] for i in range(n - 1)]
        self.proper = [i for i in range(self.N) if i != self.id and i != self.D]
        self.follow = [[y for y in self.proper if self.ok[x][y]] for x in range(self.N)]

    # ---- normal forms: (power, [k factors left-weighted, D's in front, id's at the back]) --------------------------
    def cons(self, x, nf):
        """Left-multiply a left-weighted sequence by a simple element."""
        out = []
        c = x
        for f in nf:
            a, c = self.pair[c][f]
            out.append(a)
        out.append(c)
        return out

    def normalise(self, seq):
        """Left-weighted sequence of the same length (D's in front, identities at the back)."""
        nf = []
        for x in reversed(list(seq)):
            nf = self.cons(x, nf)
        return nf

    def same(self, h, p1, seq1, p2, seq2):
        """Do D^p1 seq1 and D^p2 seq2 denote the same element? Both sequences must be left-weighted."""
        k = max(len(seq1), len(seq2))
        a = list(seq1) + [self.id] * (k - len(seq1))
        b = list(seq2) + [self.id] * (k - len(seq2))
        return h.all([h.eq(p1, p2)] + [h.eq(x, y) for x, y in zip(a, b)])


def garside(n, kind):
    k = (n, kind)
    if k not in _cache:
        _cache[k] = Garside(n, kind)
    return _cache[k]
