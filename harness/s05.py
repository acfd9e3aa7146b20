"""S05: the search script records and reports only true results."""
import ast
import builtins
import contextlib
import io
import os
import random
import re
import sqlite3
import sys
import time

import peyl
from peyl.braid import GNF
from .common import Ctx, Task, conc
from .r03 import exact, simple_word, want
from .s04 import descendants, forms
from .track import Rand

OUTSIDE = 'the database engine, the clock and the table printing; longer searches, other representations and larger limits than the stated bounds'
ASSUMPTIONS = ['the generator of random numbers may return anything in range', 'the script is run with a stand-in for the database connection that records what it is given']
SCRIPT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(peyl.__file__))), 'search.py')


class Stop(BaseException):
    pass


class Conn:
    """Records the transactions; ends the search after some of them."""
    def __init__(self, limit):
        self.limit, self.rows, self.done, self.closed, self.open = limit, [], 0, False, False

    def executescript(self, s):
        pass

    def execute(self, s, *a):
        if s.strip().upper().startswith('BEGIN'):
            if self.done == self.limit:
                raise Stop
            self.rows.append([])

    def executemany(self, s, rows):
        assert s.strip().upper().startswith('INSERT INTO GOOD_BRAIDS VALUES')
        self.rows[-1].extend(rows)

    def commit(self):
        self.done += 1

    def close(self):
        self.closed = True


def search(h, args, limit, rand):
    """Run the script in this process: (recorded transactions, printed text, ended by itself)."""
    conn = Conn(limit)
    out = io.StringIO()
    saved = sys.argv, random.Random, time.sleep, sqlite3.connect
    sys.argv = ['search.py'] + [str(a) for a in args] + ['--database', 'none']
    random.Random, time.sleep, sqlite3.connect = (lambda seed=None: rand), (lambda s: None), (lambda *a, **k: conn)
    ended = True
    try:
        with open(SCRIPT) as fh:
            code = compile(fh.read(), SCRIPT, 'exec')
        with contextlib.redirect_stdout(out):
            exec(code, {'__name__': '__main__', 'peyl': peyl})
    except Stop:
        ended = False
    finally:
        sys.argv, random.Random, time.sleep, sqlite3.connect = saved
    h.check('connection closed', conn.closed)
    return conn.rows, out.getvalue(), ended


def projlen(b, r, p):
    es = [e for row in want(b, r, p) for x in row for e in x]
    return max(es) - min(es) + 1


def reported(text, n, r, p):
    """The near-kernel elements in one section of the output."""
    out = []
    for m in re.finditer(r'\(n=(\d+), r=(\d+), p=(\d+)\) near-kernel element: Garside length (\d+), Garside form (.*)', text):
        inf, words = ast.literal_eval(m.group(5))
        out.append((tuple(map(int, m.group(1, 2, 3, 4))), inf, words))
    return out


def check_rows(h, n, r, p, rows, start, save):
    for k, tr in enumerate(rows):
        h.check('at most so many are saved', len(tr) <= save)
        h.check('the most promising first', [x[4] for x in tr] == sorted(x[4] for x in tr))
        braids = [GNF(*ast.literal_eval(x[5])) for x in tr]
        h.check('each once', len(set(braids)) == len(braids))
        for x, b in zip(tr, braids):
            h.check('representation', x[:3] == (n, r, p) and b.n == n)
            h.check('length', x[3] == b.canonical_length() == start + k)
            h.check('projective length', x[4] == projlen(b, r, p))


def check_reports(h, n, r, p, text):
    C = Ctx(h, n, 'gnf')
    index = {d.word: i for i, d in enumerate(C.T.divs)}
    found = []
    for (n1, r1, p1, L), inf, words in reported(text, n, r, p):
        b = GNF(n, inf, tuple(index[tuple(w)] for w in words))
        h.check('report', (n1, r1, p1) == (n, r, p) and L == len(words))
        h.check('near the kernel', projlen(b, r, p) == 1)
        found.append(b)
    return found


def options(h, boot, size, use, save, step, stop):
    a = ['--bootstrap-length', boot, '--bucket-size', size, '--use-best', use, '--save-best', save, '--step-size', step]
    return a + ['--stop-at-projlen-1'] if stop else a


def sections(text):
    return re.split(r'-------\s+Length \d+', text)[1:]


def draws(h, n, r, p, boot, size, limit, step, most):
    """Small buckets, any random draws, any limits: what is saved and reported is true."""
    use, save = conc(h.fin('use', 0, most)), conc(h.fin('save', 0, most))
    stop = conc(h.fin('stop', 0, 1))
    rows, text, ended = search(h, [n, r, p] + options(h, boot, size, use, save, step, stop), limit, Rand(h))
    check_rows(h, n, r, p, rows, boot - step + 1, save)
    found = check_reports(h, n, r, p, text)
    h.check('ends when asked to', ended == bool(stop and found))


def whole(h, n, r, boot, limit, most, step=1):
    """Large buckets: exactly the most promising braids are saved and advanced, step by step."""
    p = conc(h.fin('p', [2, 3]))
    i, d = conc(h.fin('use', 0, len(most) - 1)), conc(h.fin('save', 0, 1))
    use, save = most[i], most[(i + d) % len(most)]
    rows, text, ended = search(h, [n, r, p] + options(h, boot, 10000, use, save, step, 0), limit, Rand(h))
    check_rows(h, n, r, p, rows, boot - step + 1, save)
    C = Ctx(h, n, 'gnf')
    held = {k: {GNF(n, 0, s) for s in forms(C, k)} for k in range(1, boot + 1)}
    texts = sections(text)
    h.check('rounds', len(rows) == limit)
    for k, (tr, sec) in enumerate(zip(rows, texts)):
        now = boot - step + 1 + k
        buckets = {}
        for b in held.get(now, ()):
            buckets.setdefault(projlen(b, r, p), []).append(b)

        def best(limit):
            out = []
            for w in sorted(buckets):
                if len(out) + len(buckets[w]) > limit:
                    break
                out += buckets[w]
            return out
        h.check('saved', sorted(GNF(*ast.literal_eval(x[5])) for x in tr) == sorted(best(save)))
        near = [b for bs in held.values() for b in bs if projlen(b, r, p) == 1]
        h.check('reported', sorted(check_reports(h, n, r, p, sec)) == sorted(near))
        for b in best(use):
            for m in range(1, step + 1):
                held.setdefault(now + m, set()).update(descendants(C, b, m))
        held = {L: bs for L, bs in held.items() if L > now}
    h.check('goes on', not ended)


def tasks(tier):
    T = []

    def t(fn, base, bound, **kw):
        T.append(Task(fn + '-' + '-'.join(str(v) for v in kw.values()).replace(' ', ''), fn, kw, bound, base))
    for n, r, p, boot, size, limit, step, most, base in ((3, 1, 2, 1, 1, 2, 1, 1, 1), (3, 0, 2, 1, 3, 1, 1, 1, 1), (3, 1, 3, 2, 7, 1, 2, 1, 1), (4, 2, 2, 1, 16, 1, 1, 3, 1), (3, 1, 2, 1, 1, 2, 1, 3, 0), (3, 0, 2, 1, 3, 1, 1, 3, 0), (3, 1, 3, 2, 6, 1, 2, 3, 0)):
        t('draws', base, f'B{n}, r = {r}, p = {p}: bucket size {size}, bootstrap {boot}, {limit} rounds of {step} steps, limits up to {most}, any random draws', n=n, r=r, p=p, boot=boot, size=size, limit=limit, step=step, most=most)
    for n, r, boot, limit, most, base in ((3, 1, 1, 3, (2, 4, 100), 1), (3, 1, 2, 2, (1, 3, 5, 7, 100), 1), (4, 2, 1, 2, (3, 4, 15), 1), (3, 0, 2, 1, (0, 8), 1), (4, 1, 1, 1, (8, 12, 21), 1)):
        t('whole', base, f'B{n}, r = {r}, p = 2, 3: bootstrap {boot}, {limit} rounds, limits {most}', n=n, r=r, boot=boot, limit=limit, most=most)
    for n, r, boot, limit, most, step, base in ((3, 1, 2, 3, (3, 7, 100), 2, 1), (3, 1, 3, 2, (2, 20), 2, 1), (3, 0, 2, 2, (8, 100), 2, 1), (3, 1, 3, 2, (5, 100), 3, 1), (4, 1, 2, 1, (12, 400), 2, 0)):
        t('whole', base, f'B{n}, r = {r}, p = 2, 3: bootstrap {boot}, {limit} rounds of {step} steps, limits {most}', n=n, r=r, boot=boot, limit=limit, most=most, step=step)
    return T
