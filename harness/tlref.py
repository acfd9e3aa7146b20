"""Reference Temperley-Lieb diagrams: crossingless matchings as tuples, composed by tracing components of a graph."""
import functools


@functools.lru_cache(maxsize=None)
def matchings(N):
    """All crossingless matchings of N points on a line."""
    if N == 0:
        return [()]
    out = []
    for k in range(1, N, 2):
        for a in matchings(k - 1):
            for b in matchings(N - k - 1):
                out.append((k,) + tuple(x + 1 for x in a) + (0,) + tuple(x + k + 1 for x in b))
    return sorted(out)


def points(top, bot):
    """The documented numbering: bottom points left to right, then top points right to left."""
    return [('b', i) for i in range(bot)] + [('t', top - 1 - i) for i in range(top)]


def arcs(top, bot, seq):
    P = points(top, bot)
    return [(P[i], P[j]) for i, j in enumerate(seq) if i < j]


def from_arcs(top, bot, arcs_):
    P = {p: i for i, p in enumerate(points(top, bot))}
    r = [None] * (top + bot)
    for a, b in arcs_:
        r[P[a]], r[P[b]] = P[b], P[a]
    return tuple(r)


def glue(edges):
    """Follow a graph whose vertices have degree one or two: (list of pairs of end points, number of closed loops)."""
    inc = {}
    for k, (a, b) in enumerate(edges):
        inc.setdefault(a, []).append(k)
        inc.setdefault(b, []).append(k)
    used = [False] * len(edges)

    def walk(v):
        while True:
            ks = [k for k in inc[v] if not used[k]]
            if not ks:
                return v
            k = ks[0]
            used[k] = True
            a, b = edges[k]
            v = b if a == v else a
    ends = []
    for v, ks in inc.items():
        if len(ks) == 1 and not used[ks[0]]:
            ends.append((v, walk(v)))
    loops = 0
    for k in range(len(edges)):
        if not used[k]:
            used[k] = True
            walk(edges[k][1])
            loops += 1
    return ends, loops


@functools.lru_cache(maxsize=None)
def compose(a, b, c, x, y):
    """x: b points below, a above; y: c points below, b above. Returns (matching, loops) of x on top of y."""
    def tag(p, lower):
        side, i = p
        if lower:
            return ('m', i) if side == 't' else ('b', i)
        return ('m', i) if side == 'b' else ('t', i)
    edges = [(tag(p, False), tag(q, False)) for p, q in arcs(a, b, x)] + [(tag(p, True), tag(q, True)) for p, q in arcs(b, c, y)]
    ends, loops = glue(edges)
    return from_arcs(a, c, ends), loops


def closure(n, x):
    """Number of loops after joining the i-th top point to the i-th bottom point."""
    ends, loops = glue([(p, q) for p, q in arcs(n, n, x)] + [(('b', i), ('t', i)) for i in range(n)])
    assert not ends
    return loops


def tensor(a, b, x, c, d, y):
    def sh(p):
        return (p[0], p[1] + (b if p[0] == 'b' else a))
    return from_arcs(a + c, b + d, arcs(a, b, x) + [(sh(p), sh(q)) for p, q in arcs(c, d, y)])


def flip(a, b, x):
    f = {'b': 't', 't': 'b'}
    return from_arcs(b, a, [((f[p[0]], p[1]), (f[q[0]], q[1])) for p, q in arcs(a, b, x)])


def through(a, b, x):
    return sum(1 for p, q in arcs(a, b, x) if p[0] != q[0])


def ident(n):
    return from_arcs(n, n, [(('b', i), ('t', i)) for i in range(n)])


def cupcap(i, n):
    return from_arcs(n, n, [(('b', j), ('t', j)) for j in range(n) if j not in (i, i + 1)] + [(('b', i), ('b', i + 1)), (('t', i), ('t', i + 1))])


def some(N, k):
    """A few matchings of many points: nested, side by side, and ones that look arbitrary."""
    out = [tuple(N - 1 - i for i in range(N)), tuple(i ^ 1 for i in range(N))]
    x = 12345 + N
    while len(out) < k + 2:
        seq, stack = [None] * N, []
        for i in range(N):
            x = (x * 1103515245 + 12345) % 2**31
            if stack and (len(stack) >= N - i or x // 4096 % 5 < 2):
                j = stack.pop()
                seq[i], seq[j] = j, i
            else:
                stack.append(i)
        out.append(tuple(seq))
    return sorted(set(out))
