"""
Symbolic execution core: propositional layer (finite-domain integers as one-hot literals over an
incremental CDCL solver), polynomial layer (integer/real symbols with canonical polynomials, decided by z3),
and path exploration by re-execution.
"""
import math
import os
import sys
import time
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

from . import sat as satmod   # noqa: E402

TRUE, FALSE = 1, -1


class PathAbort(BaseException):
    """The current path is not to be explored further (assumption infeasible)."""


class BudgetExceeded(BaseException):
    """Deadline or path budget exhausted: the task is inconclusive."""


class EngineError(BaseException):
    """The engine cannot represent something; the task is inconclusive."""


cur = None          # current Engine (None in concrete mode)


# --------------------------------------------------------------------------------------------------
# Polynomials over theory variables
# --------------------------------------------------------------------------------------------------

class P:
    """Immutable sparse polynomial: {monomial (sorted tuple of var ids, with repetition): coefficient}."""
    __slots__ = ('t', '_k', '_b')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._b = None

    @staticmethod
    def const(c):
        return P({(): c}) if c else P({})

    @staticmethod
    def var(i):
        return P({(i,): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), 0)

    def add(self, o, s=1):
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + s * c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return P(t)

    def addc(self, c):
        if not c:
            return self
        t = dict(self.t)
        n = t.get((), 0) + c
        if n:
            t[()] = n
        else:
            t.pop((), None)
        return P(t)

    def scale(self, c):
        if c == 0:
            return P({})
        if c == 1:
            return self
        return P({m: k * c for m, k in self.t.items()})

    def mul(self, o):
        if self.is_const():
            return o.scale(self.constval())
        if o.is_const():
            return self.scale(o.constval())
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n)) if m and n else (m or n)
                v = t.get(k, 0) + c * d
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return P(t)

    def vars(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def bounds(self, E):
        """Interval bounds (None = unbounded)."""
        if self._b is not None:
            return self._b
        lo, hi = 0, 0
        for m, c in self.t.items():
            a, b = 1, 1
            i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                v = E.tvars[m[i]]
                x, y = _ipow(v.lo, v.hi, j - i)
                a, b = _imul(a, b, x, y)
                i = j
            a, b = (a, b) if c > 0 else (b, a)
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        self._b = (lo, hi)
        return self._b


def _ipow(lo, hi, e):
    if e == 1:
        return lo, hi
    if e % 2 == 1:
        return (None if lo is None else lo ** e), (None if hi is None else hi ** e)
    if lo is not None and lo >= 0:
        return lo ** e, (None if hi is None else hi ** e)
    if hi is not None and hi <= 0:
        return hi ** e, (None if lo is None else lo ** e)
    return 0, (None if lo is None or hi is None else max(-lo, hi) ** e)


def _imul(a, b, c, d):
    if (a, b) == (1, 1):
        return c, d
    if (c, d) == (1, 1):
        return a, b
    INF = math.inf
    A, B = (-INF if a is None else a), (INF if b is None else b)
    C, D = (-INF if c is None else c), (INF if d is None else d)

    def m(x, y):
        return 0 if x == 0 or y == 0 else x * y
    ps = [m(A, C), m(A, D), m(B, C), m(B, D)]
    lo, hi = min(ps), max(ps)
    return (None if lo == -INF else lo), (None if hi == INF else hi)


class TVar:
    __slots__ = ('id', 'name', 'sort', 'lo', 'hi', 'kind', 'data', 'defs')

    def __init__(self, id, name, sort, lo, hi, kind, data=None):
        self.id, self.name, self.sort, self.lo, self.hi, self.kind, self.data = id, name, sort, lo, hi, kind, data
        self.defs = None


class Fin:
    """A finite-domain value: exactly one of the literals holds."""
    __slots__ = ('items', 'd', 'id', 'lo', 'hi', 'const')

    def __init__(self, items, id):
        self.items = items
        self.d = dict(items)
        self.id = id
        self.lo = items[0][0]
        self.hi = items[-1][0]
        self.const = items[0][0] if len(items) == 1 else None


# --------------------------------------------------------------------------------------------------
# Engine
# --------------------------------------------------------------------------------------------------

class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.sat_queries = 0
        self.z3_queries = 0
        self.ext_queries = 0
        self.solver_time = 0.0
        self.checks = 0
        self.checks_trivial = 0
        self.unknown = 0
        self.incomplete = 0


class Engine:
    def __init__(self, deadline=None, z3_timeout=20000, max_paths=200000, check_conflicts=30000, ext_timeout=600):
        self.deadline = deadline
        self.z3_timeout = z3_timeout
        self.max_paths = max_paths
        self.check_conflicts = check_conflicts
        self.ext_timeout = ext_timeout
        self.stats = Stats()
        self.sat = satmod.Minisat()
        self.nv = 1
        self.groups = {}        # var -> (clauses, fanin vars)
        self.add_group([1], [[1]], [])
        self.memo = {}
        self.keep = []          # objects kept alive because memo keys use their id
        self.frozen = {}        # id -> object, lists that are treated as immutable tables
        self.fins = {}
        self.tvars = []
        self.tnames = {}
        self.atoms = {}         # key -> lit
        self.atom_def = {}      # var -> (kind, P)
        self.z3s = None
        self.z3groups = set()
        self.z3bool = {}
        self.z3tv = {}
        self.z3done = 0
        self.z3atoms = set()
        self.active = set()
        self.coneset = set()
        self.conecache = {}
        self.inputs = {}        # name -> ('fin', Fin) | ('bool', lit) | ('num', TVar)
        self.samples_models = []
        self.tokens = {}
        # path state
        self.path = []
        self.known = {}
        self.prefix = []
        self.pos = 0
        self.trace = []
        self.pending = []
        self.cone_theory = False

    # -- propositional -----------------------------------------------------------------------------
    def newvar(self):
        self.nv += 1
        return self.nv

    def add_group(self, outs, clauses, fanin):
        g = (clauses, tuple(fanin), tuple(outs))
        for o in outs:
            self.groups[o] = g
        s = self.sat
        for c in clauses:
            s.add(c)

    def lit_and(self, lits):
        out = []
        seen = set()
        for l in lits:
            if l == FALSE:
                return FALSE
            if l == TRUE or l in seen:
                continue
            if -l in seen:
                return FALSE
            seen.add(l)
            out.append(l)
        if not out:
            return TRUE
        if len(out) == 1:
            return out[0]
        out.sort()
        k = ('and', tuple(out))
        r = self.memo.get(k)
        if r is None:
            r = self.newvar()
            self.add_group([r], [[-r, l] for l in out] + [[r] + [-l for l in out]], [abs(l) for l in out])
            self.memo[k] = r
        return r

    def lit_or(self, lits):
        return -self.lit_and([-l for l in lits])

    def lit_iff(self, a, b):
        if a == b:
            return TRUE
        if a == -b:
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x == TRUE:
                return y
            if x == FALSE:
                return -y
        s = 1
        if a < 0:
            a, s = -a, -s
        if b < 0:
            b, s = -b, -s
        if a > b:
            a, b = b, a
        k = ('iff', a, b)
        r = self.memo.get(k)
        if r is None:
            r = self.newvar()
            self.add_group([r], [[-r, -a, b], [-r, a, -b], [r, a, b], [r, -a, -b]], [a, b])
            self.memo[k] = r
        return r * s

    def lit_ite(self, c, a, b):
        if c == TRUE or a == b:
            return a
        if c == FALSE:
            return b
        if a == TRUE:
            return self.lit_or([c, b])
        if a == FALSE:
            return self.lit_and([-c, b])
        if b == TRUE:
            return self.lit_or([-c, a])
        if b == FALSE:
            return self.lit_and([c, a])
        k = ('ite', c, a, b)
        r = self.memo.get(k)
        if r is None:
            r = self.newvar()
            self.add_group([r], [[-c, -a, r], [-c, a, -r], [c, -b, r], [c, b, -r], [-a, -b, r], [a, b, -r]],
                           [abs(c), abs(a), abs(b)])
            self.memo[k] = r
        return r

    def _exactly_one(self, lits):
        cl = [list(lits)]
        n = len(lits)
        if n <= 40:
            for i in range(n):
                a = -lits[i]
                for j in range(i + 1, n):
                    cl.append([a, -lits[j]])
            return cl, []
        aux = []
        prev = None
        for i, l in enumerate(lits):
            if prev is not None:
                cl.append([-prev, -l])
            if i < n - 1:
                s = self.newvar()
                aux.append(s)
                cl.append([-l, s])
                if prev is not None:
                    cl.append([-prev, s])
                prev = s
        return cl, aux

    # -- finite domain -----------------------------------------------------------------------------
    def mkfin(self, items):
        items = tuple(sorted(items))
        f = self.fins.get(items)
        if f is None:
            f = Fin(items, len(self.fins))
            self.fins[items] = f
        return f

    def fin_input(self, name, values):
        """A fresh finite-domain input (idempotent per name)."""
        values = sorted(set(values))
        k = ('input', name)
        if k in self.memo:
            f = self.memo[k]
            assert [v for v, _ in f.items] == values, f'input {name} redeclared'
            return f
        if len(values) == 1:
            f = self.mkfin([(values[0], TRUE)])
        else:
            ls = [self.newvar() for _ in values]
            cl, aux = self._exactly_one(ls)
            self.add_group(ls + aux, cl, [])
            f = self.mkfin(list(zip(values, ls)))
        self.memo[k] = f
        self.inputs[name] = ('fin', f)
        return f

    def fin_from(self, pairs, fan=()):
        """Build a Fin from implications: pairs = [(list of literals conjoined, value)]. The premises are
        exhaustive and consistent (under the path on which the result is used)."""
        out = {}
        cl = []
        fanin = set()
        order = []
        for prem, v in pairs:
            if v not in out:
                out[v] = self.newvar()
                order.append(v)
            cl.append([-p for p in prem] + [out[v]])
            for p in prem:
                fanin.add(abs(p))
        if len(out) == 1:
            return self.mkfin([(order[0], TRUE)])
        ls = [out[v] for v in order]
        c2, aux = self._exactly_one(ls)
        self.add_group(ls + aux, cl + c2, fanin)
        return self.mkfin(list(out.items()))

    def fin_map(self, f, fn, key):
        """Apply a unary function to a Fin."""
        k = ('map', key, f.id) if key is not None else None
        if k is not None:
            r = self.memo.get(k)
            if r is not None:
                return r
        by = {}
        for v, l in f.items:
            by.setdefault(fn(v), []).append(l)
        if len(by) == len(f.items):
            r = self.mkfin([(v, ls[0]) for v, ls in by.items()])
        else:
            r = self._fin_groups(by)
        if k is not None:
            self.memo[k] = r
        return r

    def _fin_groups(self, by):
        if len(by) == 1:
            return self.mkfin([(next(iter(by)), TRUE)])
        items = []
        if len(by) == 2:
            (v1, l1), (v2, l2) = by.items()
            if len(l2) < len(l1):
                v1, l1, v2, l2 = v2, l2, v1, l1
            o = self.lit_or(l1)
            return self.mkfin([(v1, o), (v2, -o)])
        for v, ls in by.items():
            items.append((v, self.lit_or(ls)))
        return self.mkfin(items)

    def fin_bin(self, f, g, fn, key):
        if f.const is not None:
            c = f.const
            return self.fin_map(g, lambda v: fn(c, v), (key, 'l', c) if key is not None else None)
        if g.const is not None:
            c = g.const
            return self.fin_map(f, lambda v: fn(v, c), (key, 'r', c) if key is not None else None)
        if f is g:
            return self.fin_map(f, lambda v: fn(v, v), (key, 'd') if key is not None else None)
        k = ('bin', key, f.id, g.id) if key is not None else None
        if k is not None:
            r = self.memo.get(k)
            if r is not None:
                return r
        if len(f.items) * len(g.items) > 60000:
            raise EngineError('finite-domain product too large')
        table = [[fn(u, v) for v, _ in g.items] for u, _ in f.items]
        vals = {x for row in table for x in row}
        if len(vals) == 1:
            r = self.mkfin([(next(iter(vals)), TRUE)])
        elif all(len(set(row)) == 1 for row in table):
            by = {}
            for (u, l), row in zip(f.items, table):
                by.setdefault(row[0], []).append(l)
            r = self._fin_groups(by) if len(by) < len(f.items) else self.mkfin([(v, x[0]) for v, x in by.items()])
        elif all(row == table[0] for row in table):
            by = {}
            for (v, l), x in zip(g.items, table[0]):
                by.setdefault(x, []).append(l)
            r = self._fin_groups(by) if len(by) < len(g.items) else self.mkfin([(v, x[0]) for v, x in by.items()])
        else:
            r = self.fin_from([((lu, lv), table[i][j]) for i, (u, lu) in enumerate(f.items)
                               for j, (v, lv) in enumerate(g.items)])
        if k is not None:
            self.memo[k] = r
        return r

    def fin_eq(self, f, g):
        if f is g:
            return TRUE
        if f.const is not None:
            return g.d.get(f.const, FALSE)
        if g.const is not None:
            return f.d.get(g.const, FALSE)
        if f.id > g.id:
            f, g = g, f
        k = ('fineq', f.id, g.id)
        r = self.memo.get(k)
        if r is None:
            common = [v for v in f.d if v in g.d]
            if not common:
                r = FALSE
            else:
                r = self.newvar()
                cl = []
                for v, l in f.items:
                    h = g.d.get(v)
                    if h is None:
                        cl.append([-l, -r])
                    else:
                        cl.append([-l, -h, r])
                        cl.append([-l, h, -r])
                for v, h in g.items:
                    if v not in f.d:
                        cl.append([-h, -r])
                self.add_group([r], cl, [abs(l) for _, l in f.items] + [abs(l) for _, l in g.items])
            self.memo[k] = r
        return r

    def fin_lit(self, f, pred):
        """Literal for pred(value)."""
        yes = [l for v, l in f.items if pred(v)]
        if not yes:
            return FALSE
        if len(yes) == len(f.items):
            return TRUE
        if 2 * len(yes) > len(f.items):
            return -self.lit_or([l for v, l in f.items if not pred(v)])
        return self.lit_or(yes)

    # -- theory variables --------------------------------------------------------------------------
    def tvar(self, name, sort='int', lo=None, hi=None, kind='input', data=None):
        v = self.tnames.get(name)
        if v is None:
            v = TVar(len(self.tvars), name, sort, lo, hi, kind, data)
            self.tvars.append(v)
            self.tnames[name] = v
            if kind == 'input':
                self.inputs[name] = ('num', v)
        return v

    def p_isint(self, p):
        return all(self.tvars[i].sort == 'int' for i in p.vars()) and all(isinstance(c, int) for c in p.t.values())

    def atom(self, rel, p):
        """Literal for p == 0 ('eq'), p <= 0 ('le')."""
        if p.is_const():
            c = p.constval()
            return TRUE if (c == 0 if rel == 'eq' else c <= 0) else FALSE
        lo, hi = p.bounds(self)
        if rel == 'eq':
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return FALSE
        else:
            if hi is not None and hi <= 0:
                return TRUE
            if lo is not None and lo > 0:
                return FALSE
        isint = self.p_isint(p)
        neg = False
        if isint:
            g = 0
            for m, c in p.t.items():
                if m:
                    g = math.gcd(g, c)
            c0 = p.constval()
            if g > 1:
                if rel == 'eq':
                    if c0 % g:
                        return FALSE
                    p = P({m: c // g for m, c in p.t.items()})
                else:
                    t = {m: c // g for m, c in p.t.items() if m}
                    k = -((-c0) // g)     # sum + c0 <= 0  <=>  sum/g <= floor(-c0/g)
                    if k:
                        t[()] = k
                    p = P(t)
            lead = p.t[max(m for m in p.t)]
            if lead < 0:
                p = p.scale(-1)
                if rel == 'le':       # p<=0 <=> -q<=0 <=> q>=0 <=> not(q+1<=0)
                    p = p.addc(1)
                    neg = True
        else:
            lead = p.t[max(m for m in p.t)]
            if rel == 'eq':
                p = p.scale(Fraction(1) / lead)
            else:
                p = p.scale(Fraction(1) / abs(lead))
                if lead < 0:
                    # -q <= 0  <=> q >= 0 <=> not (q < 0)
                    p = p.scale(-1)
                    rel, neg = 'lt', True
        # products of variables: x*y == 0 splits
        if rel == 'eq' and isint and len(p.t) == 1:
            (m, c), = p.t.items()
            s = sorted(set(m))
            if len(m) > 1:
                return self.lit_or([self.atom('eq', P.var(v)) for v in s])
        k = (rel, p.key())
        l = self.atoms.get(k)
        if l is None:
            l = self.newvar()
            self.add_group([l], [], [])
            self.atoms[k] = l
            self.atom_def[l] = (rel, p)
        return -l if neg else l

    def fresh_def(self, key, sort, lo, hi, kind, data):
        """A theory variable that is defined by `data` (an opaque function of other values)."""
        name = f'!{kind}{len(self.tvars)}'
        k = ('opaque', key)
        v = self.memo.get(k)
        if v is None:
            v = self.tvar(name, sort, lo, hi, kind, data)
            self.memo[k] = v
        return v

    # -- solving -----------------------------------------------------------------------------------
    def _activate(self, lits):
        """Bring the definitional cone of the literals into the set of decision variables."""
        stack = [abs(l) for l in lits]
        act = self.active
        new = []
        groups = self.groups
        while stack:
            v = stack.pop()
            if v in act:
                continue
            g = groups.get(v)
            for o in g[2]:
                if o not in act:
                    act.add(o)
                    new.append(o)
            if v in self.atom_def:
                self.cone_theory = True
                stack.extend(self._atom_bools(v))
            stack.extend(x for x in g[1] if x not in act)
        return new

    def _atom_bools(self, v):
        """Boolean variables on which the theory variables of this atom depend."""
        k = ('ab', v)
        r = self.memo.get(k)
        if r is None:
            rel, p = self.atom_def[v]
            r = set()
            todo = list(p.vars())
            seen = set()
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                tv = self.tvars[i]
                bs, vs = self._tvar_deps(tv)
                r.update(bs)
                todo.extend(vs)
            r = tuple(r)
            self.memo[k] = r
        return r

    def _tvar_deps(self, tv):
        if tv.kind == 'finval':
            return [abs(l) for _, l in tv.data.items], []
        if tv.kind == 'ite':
            bs, vs = [], []
            for l, p in tv.data:
                bs.append(abs(l))
                vs.extend(p.vars())
            return bs, vs
        if tv.kind in ('mod', 'div'):
            return [], list(tv.data[0].vars())
        if tv.kind == 'quot':
            return [], list(tv.data[0].vars() | tv.data[1].vars())
        return [], []

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('deadline')

    def solve(self, lits, conflicts=-1, final=False, extra=()):
        """Satisfiability of the conjunction of literals (with all definitions): 1, 0 or 2 (unknown).
        The model is left in self.last_model."""
        self._tick()
        t0 = time.time()
        try:
            return self._solve(lits, conflicts, final, extra)
        finally:
            self.stats.solver_time += time.time() - t0

    def _solve(self, lits, conflicts, final, extra=()):
        new = self._activate(list(lits) + list(extra))
        if new:
            self.sat.flush()
            self.sat_decide(new, 1)
        self.stats.sat_queries += 1
        theory = self.cone_theory
        while True:
            r = self.sat.solve(lits, conflicts if final else -1)
            if r == 0:
                return 0
            if r == 2:
                if theory:
                    break
                r, model, name = self._external(lits)
                if r != 2:
                    self.stats.ext_queries += 1
                if r == 1:
                    self.last_model = ('dict', model, None)
                return r
            if not theory:
                self.last_model = ('sat', self.sat.model(self.nv), None)
                return 1
            break
        return self._z3_solve(lits, extra)

    def _external(self, lits):
        cone, stack, clauses, gs = set(), [abs(l) for l in lits], [], set()
        while stack:
            v = stack.pop()
            if v in cone:
                continue
            cone.add(v)
            g = self.groups[v]
            if id(g) not in gs:
                gs.add(id(g))
                clauses.extend(g[0])
                stack.extend(g[1])
                stack.extend(g[2])
        left = self.ext_timeout
        if self.deadline is not None:
            left = max(1, min(left, self.deadline - time.time()))
        return satmod.solve_external(self.nv, clauses, list(lits), left)

    def sat_decide(self, vs, flag):
        import array
        a = array.array('i', vs)
        self.sat.l.sx_decide(self.sat.p, a.buffer_info()[0], len(a), flag)

    # z3 side
    def _z3init(self):
        import z3
        self.z3 = z3
        self.z3s = z3.Solver()
        self.z3s.set('timeout', self.z3_timeout)

    def z3lit(self, l):
        v = abs(l)
        b = self.z3bool.get(v)
        if b is None:
            b = self.z3.Bool(f'b{v}')
            self.z3bool[v] = b
        return b if l > 0 else self.z3.Not(b)

    def z3tvar(self, i):
        e = self.z3tv.get(i)
        if e is None:
            tv = self.tvars[i]
            z3 = self.z3
            e = z3.Int(f't{i}') if tv.sort == 'int' else z3.Real(f't{i}')
            self.z3tv[i] = e
            s = self.z3s
            if tv.lo is not None:
                s.add(e >= (tv.lo if tv.sort == 'int' else z3.Q(Fraction(tv.lo).numerator, Fraction(tv.lo).denominator)))
            if tv.hi is not None:
                s.add(e <= (tv.hi if tv.sort == 'int' else z3.Q(Fraction(tv.hi).numerator, Fraction(tv.hi).denominator)))
            if tv.kind == 'input' and tv.data == 'halfopen':
                s.add(e < 1)
            if tv.kind == 'finval':
                for v, l in tv.data.items:
                    self._z3need(abs(l))
                    s.add(z3.Implies(self.z3lit(l), e == v))
            elif tv.kind == 'ite':
                for l, p in tv.data:
                    self._z3need(abs(l))
                    s.add(z3.Implies(self.z3lit(l), e == self.z3poly(p, tv.sort)))
            elif tv.kind == 'mod':
                p, m = tv.data
                q = z3.Int(f'q{i}')
                s.add(self.z3poly(p) == m * q + e)
            elif tv.kind == 'div':
                p, m = tv.data
                r = z3.Int(f'r{i}')
                s.add(self.z3poly(p) == m * e + r, r >= 0, r < m)
            elif tv.kind == 'quot':
                n, d = tv.data
                zd = self.z3poly(d, 'real')
                s.add(z3.Implies(zd != 0, e * zd == self.z3poly(n, 'real')))
        return e

    def z3poly(self, p, sort=None):
        z3 = self.z3
        real = sort == 'real' or not self.p_isint(p)
        terms = []
        for m, c in p.key():
            fs = [self.z3tvar(i) for i in m]
            if real:
                fs = [z3.ToReal(f) if f.sort().kind() == z3.Z3_INT_SORT else f for f in fs]
                c = Fraction(c)
                ce = z3.Q(c.numerator, c.denominator)
            else:
                ce = z3.IntVal(c)
            if not fs:
                terms.append(ce)
            else:
                e = fs[0]
                for f in fs[1:]:
                    e = e * f
                terms.append(e if c == 1 else ce * e)
        if not terms:
            return z3.RealVal(0) if real else z3.IntVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def _z3need(self, v):
        """Assert the definitional groups in the cone of v into z3."""
        stack = [v]
        s = self.z3s
        while stack:
            v = stack.pop()
            if v in self.z3groups:
                continue
            g = self.groups[v]
            for o in g[2]:
                self.z3groups.add(o)
            for c in g[0]:
                s.add(self.z3.Or([self.z3lit(l) for l in c]) if len(c) > 1 else self.z3lit(c[0]))
            for o in g[2]:
                if o in self.atom_def:
                    rel, p = self.atom_def[o]
                    e = self.z3poly(p)
                    s.add(self.z3lit(o) == (e == 0 if rel == 'eq' else e <= 0 if rel == 'le' else e < 0))
            stack.extend(g[1])

    def _z3_solve(self, lits, extra=()):
        if self.z3s is None:
            self._z3init()
        for v in extra:
            self._z3need(v)
        for l in lits:
            self._z3need(abs(l))
        self.stats.z3_queries += 1
        zl = [self.z3lit(l) for l in lits]
        r = self.z3s.check(*zl)
        z3 = self.z3
        if r == z3.unknown:
            # retry in a fresh, non-incremental solver (enables nlsat and other tactics)
            s2 = z3.Solver()
            s2.set('timeout', self.z3_timeout)
            s2.add(self.z3s.assertions())
            s2.add(*zl)
            r = s2.check()
            if r == z3.sat:
                self.last_model = ('z3', s2.model(), None)
                return 1
            if r == z3.unsat:
                self.sat.add([-l for l in lits])
                return 0
            return 2
        if r == z3.unsat:
            core = {c.get_id() for c in self.z3s.unsat_core()}
            cl = [-l for l, z in zip(lits, zl) if z.get_id() in core]
            self.sat.add(cl)
            return 0
        self.last_model = ('z3', self.z3s.model(), None)
        return 1

    def model_inputs(self):
        """Concrete values of all declared inputs under the last model."""
        kind, m, _ = self.last_model
        out = {}

        def litval(l):
            v = abs(l)
            if v == 1:
                b = True
            elif kind == 'sat':
                b = bool(m[v - 1])
            elif kind == 'dict':
                b = m.get(v, False)
            else:
                e = self.z3bool.get(v)
                b = e is not None and self.z3.is_true(m.eval(e))
            return b if l > 0 else not b

        self.litval = litval
        for name, (k, x) in self.inputs.items():
            if k == 'fin':
                val = [v for v, l in x.items if litval(l)]
                out[name] = val[0] if val else x.items[0][0]
            elif k == 'bool':
                out[name] = litval(x)
            else:
                out[name] = self.numval(x, kind, m)
        return out

    def numval(self, tv, kind, m):
        if kind == 'z3' and tv.id in self.z3tv:
            e = m.eval(self.z3tv[tv.id], model_completion=True)
            if tv.sort == 'int':
                return e.as_long()
            try:
                f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            except Exception:
                f = Fraction(str(e.approx(20).as_fraction()))
            return [f.numerator, f.denominator]
        # unconstrained
        lo, hi = tv.lo, tv.hi
        v = 0
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        if tv.sort == 'int':
            return int(v)
        f = Fraction(v)
        return [f.numerator, f.denominator]

    # -- path exploration --------------------------------------------------------------------------
    def begin_path(self, prefix):
        self.path = []
        self.known = {1: True}
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        if self.active:
            self.sat.flush()
            self.sat_decide(list(self.active), 0)
            self.active = set()
        self.cone_theory = False
        self.notes = []
        self.tokens = {}

    def add_path(self, l):
        self.path.append(l)
        self.known[abs(l)] = l > 0

    def lit_known(self, l):
        k = self.known.get(abs(l))
        if k is None:
            return None
        return k if l > 0 else not k

    def decide(self, l):
        """Branch on a literal."""
        k = self.lit_known(l)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            l0, val = self.prefix[self.pos]
            if l0 != l:
                raise EngineError(f'non-deterministic re-execution at decision {self.pos}: {l0} vs {l}')
            self.pos += 1
            self.trace.append((l, val))
            self.add_path(l if val else -l)
            return val
        self.stats.decisions += 1
        f = self.solve(self.path + [-l])
        t = self.solve(self.path + [l]) if f != 0 else 1
        if t == 0 and f == 0:
            raise PathAbort()
        if t != 0 and f != 0:
            self.pending.append(self.trace + [(l, False)])
            val = True
        else:
            val = t != 0
        self.pos += 1
        self.prefix = self.trace + [(l, val)]
        self.trace = list(self.prefix)
        self.add_path(l if val else -l)
        return val

    def pick(self, f):
        """A value computed once per path (by the solver) and replayed on re-execution."""
        if self.pos < len(self.prefix):
            tag, v = self.prefix[self.pos]
            if tag != 'val':
                raise EngineError(f'non-deterministic re-execution at decision {self.pos}: {tag} vs a value')
            self.pos += 1
            self.trace.append((tag, v))
            return v
        v = f()
        self.pos += 1
        self.prefix = self.trace + [('val', v)]
        self.trace = list(self.prefix)
        return v

    def assume(self, l):
        k = self.lit_known(l)
        if k is True:
            return
        if k is False or l == FALSE:
            raise PathAbort()
        # replayed prefixes are known feasible: solving is only needed at the frontier
        if self.pos >= len(self.prefix):
            if self.solve(self.path + [l]) == 0:
                raise PathAbort()
        self.add_path(l)

    def prove(self, l):
        """Is the literal implied by the path? 0 = yes (negation unsat), 1 = counterexample, 2 = unknown."""
        self.stats.checks += 1
        k = self.lit_known(l)
        if k is True:
            self.stats.checks_trivial += 1
            return 0
        r = self.solve(self.path + [-l], conflicts=self.check_conflicts, final=True)
        if r == 2:
            self.stats.unknown += 1
        return r

    def explore(self, fn, on_path):
        """Run fn() on every feasible path."""
        global cur
        cur = self
        self.pending = [[]]
        try:
            while self.pending:
                self._tick()
                if self.stats.paths >= self.max_paths:
                    raise BudgetExceeded('path budget')
                prefix = self.pending.pop()
                self.begin_path(prefix)
                self.stats.paths += 1
                try:
                    fn()
                    ok = True
                except PathAbort:
                    ok = False
                if on_path is not None and on_path(ok):
                    return
        finally:
            cur = None
