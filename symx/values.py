"""Symbolic value classes: SymBool, SymInt (finite-domain part + polynomial part), SymReal; merging helpers."""
import dataclasses
import math
import operator

import numpy as np
from fractions import Fraction

from . import core
from .core import FALSE, TRUE, EngineError, P

TOKEN_BASE = 7 * 10 ** 30


BOOLS = (bool, np.bool_)


class SymBool:
    __slots__ = ('l',)
    __array_ufunc__ = None

    def __init__(self, l):
        self.l = l

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.cur.decide(self.l)

    def __index__(self):
        return int(core.cur.decide(self.l))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f'<bool {self.l}>'

    def __reduce__(self):
        raise EngineError('pickle of symbolic value')

    # methods of numpy scalars
    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    tolist = item

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def asint(self):
        if self.l == TRUE:
            return 1
        if self.l == FALSE:
            return 0
        return SymInt(core.cur.mkfin([(0, -self.l), (1, self.l)]), None)

    def __eq__(self, o):
        if isinstance(o, BOOLS):
            return mkbool(core.cur.lit_iff(self.l, blit(o)))
        return self.asint() == o

    def __ne__(self, o):
        return sym_not(self == o)

    def __and__(self, o):
        if isinstance(o, BOOLS):
            return mkbool(core.cur.lit_and([self.l, blit(o)]))
        return self.asint() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, BOOLS):
            return mkbool(core.cur.lit_or([self.l, blit(o)]))
        return self.asint() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(-core.cur.lit_iff(self.l, blit(o)))
        return self.asint() ^ o
    __rxor__ = __xor__


def _boolfwd(name):
    def f(self, *a):
        return getattr(operator, name)(self.asint(), *a)
    return f


def _boolrev(name):
    def f(self, o):
        return getattr(operator, name)(o, self.asint())
    return f


for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'truediv', 'pow', 'lshift', 'rshift', 'lt', 'le', 'gt', 'ge'):
    setattr(SymBool, f'__{_n}__', _boolfwd(_n))
for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'truediv', 'pow', 'lshift', 'rshift'):
    setattr(SymBool, f'__r{_n}__', _boolrev(_n))
for _n in ('neg', 'pos', 'abs', 'invert'):
    setattr(SymBool, f'__{_n}__', _boolfwd(_n))


def mkbool(l):
    if l == TRUE:
        return True
    if l == FALSE:
        return False
    k = core.cur.lit_known(l)
    if k is not None:
        return k
    return SymBool(l)


def blit(b):
    """Literal of a truth value."""
    if type(b) is SymBool:
        return b.l
    if b is True or b is False:
        return TRUE if b else FALSE
    if isinstance(b, (SymInt,)):
        return -blit(b == 0)
    return TRUE if b else FALSE


def sym_not(b):
    if type(b) is SymBool:
        return mkbool(-b.l)
    if type(b) is SymInt:
        return b == 0
    return not b


def issym(x):
    t = type(x)
    return t is SymInt or t is SymBool or t is SymReal


def mknum(fin, poly):
    """Normalise fin + poly into an int or SymInt."""
    if poly is not None:
        c = poly.t.get((), 0)
        if len(poly.t) == (1 if c else 0):
            if fin is None:
                return c
            if c:
                fin = core.cur.fin_map(fin, lambda v: v + c, ('+', c))
            poly = None
    if fin is not None and fin.const is not None:
        c = fin.const
        if poly is None:
            return c
        poly = poly.addc(c)
        fin = None
        if poly.is_const():
            return poly.constval()
    if fin is None and poly is None:
        return 0
    return SymInt(fin, poly)


def known_fin(f):
    """If the path already determines the value of the Fin, return it."""
    known = core.cur.known
    for v, l in f.items:
        k = known.get(abs(l))
        if k is not None and (k if l > 0 else not k):
            return v
    return None


def parts(x):
    """(fin, poly) of an int-like value; poly includes constants."""
    t = type(x)
    if t is SymInt:
        return x.fin, x.poly
    if t is SymBool:
        return x.asint().fin, None
    if t is int or t is bool:
        return None, P.const(int(x))
    if isinstance(x, int):
        return parts(int(x))
    i = operator.index(x)
    return None, P.const(i)


def isintlike(x):
    if type(x) in (int, bool, SymInt, SymBool):
        return True
    if isinstance(x, (int,)):
        return True
    return hasattr(x, '__index__') and not isinstance(x, SymReal)


def addparts(f1, p1, f2, p2, s):
    E = core.cur
    if f2 is not None and s < 0:
        f2 = E.fin_map(f2, operator.neg, 'neg')
    if p2 is not None and s < 0:
        p2 = p2.scale(-1)
    p = p1 if p2 is None else p2 if p1 is None else p1.add(p2)
    if f1 is None:
        f = f2
    elif f2 is None:
        f = f1
    else:
        if f1.id > f2.id:
            f1, f2 = f2, f1
        f = E.fin_bin(f1, f2, operator.add, '+')
    return f, p


def nonneg(o, msg):
    """Branches on o < 0 (ValueError there); otherwise o, with its infeasible negative values replaced."""
    if type(o) is SymInt:
        if o < 0:
            raise ValueError(msg)
        if o.poly is not None:
            return o.concretise()
        if any(v < 0 for v, _ in o.fin.items):
            return o.map(lambda v: max(v, 0), 'max0')
    return o


class SymInt:
    __slots__ = ('fin', 'poly')
    __array_ufunc__ = None

    def __init__(self, fin, poly):
        self.fin = fin
        self.poly = poly

    @property
    def __class__(self):
        return int

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def __reduce__(self):
        raise EngineError('pickle of symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # methods of numpy scalars
    def all(self, *a, **k):
        return self != 0

    any = all

    def sum(self, *a, **k):
        return self

    max = min = sum

    def item(self):
        return self

    tolist = item

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def bounds(self):
        lo, hi = 0, 0
        if self.fin is not None:
            lo, hi = self.fin.lo, self.fin.hi
        if self.poly is not None:
            a, b = self.poly.bounds(core.cur)
            lo = None if a is None else lo + a
            hi = None if b is None else hi + b
        return lo, hi

    # -- concretisation
    def concretise(self):
        E = core.cur
        if self.poly is None:
            v = known_fin(self.fin)
            if v is not None:
                return v
            items = self.fin.items
            for v, l in items[:-1]:
                if E.decide(l):
                    return v
            if not E.decide(items[-1][1]):
                raise EngineError('finite value without alternative')
            return items[-1][0]
        lo, hi = self.bounds()
        if lo is not None and hi is not None and hi - lo <= 300:
            for v in range(lo, hi):
                if self == v:
                    return v
            return hi
        # unbounded: branch over values found by the solver; the remainder is cut and reported
        if not hasattr(E, 'conc_count'):
            E.conc_count = {}
        extra, todo, seen = set(), list(self.aspoly().vars()), set()
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                bs, vs = E._tvar_deps(E.tvars[i])
                extra.update(abs(b) for b in bs)
                todo.extend(vs)
        extra.discard(1)
        def find():
            r = E.solve(E.path, extra=extra)
            if r == 0:
                raise core.PathAbort()
            return self.modelvalue() if r == 1 else None
        for _ in range(24):
            v = E.pick(find)
            if v is None:
                break
            if self == v:
                return v
        E.stats.incomplete += 1
        raise core.PathAbort()

    def modelvalue(self):
        from .run import Evaluator
        E = core.cur
        return Evaluator(E, E.model_inputs())(self)

    def __index__(self):
        return self.concretise()

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.concretise())

    def __hash__(self):
        return hash(self.concretise())

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- rendering
    def _token(self):
        E = core.cur
        if E is None:
            return '<int>'
        if self.fin is not None and self.poly is None:
            v = known_fin(self.fin)
            if v is not None:
                return str(v)
        n = TOKEN_BASE + len(E.tokens)
        E.tokens[n] = self
        return str(n)

    def __str__(self):
        return self._token()

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ('', 'd'):
            return self._token()
        return format(self.concretise(), spec)

    def bit_length(self):
        return self.map(int.bit_length, 'bit_length')

    def bit_count(self):
        return self.map(int.bit_count, 'bit_count')

    def conjugate(self):
        return self

    def map(self, fn, key):
        if self.poly is None:
            return mknum(core.cur.fin_map(self.fin, fn, key), None)
        return fn(self.concretise())

    # -- conversion to a polynomial only
    def aspoly(self):
        if self.fin is None:
            return self.poly
        E = core.cur
        tv = E.fresh_def(('fin', self.fin.id), 'int', self.fin.lo, self.fin.hi, 'finval', self.fin)
        p = P.var(tv.id)
        return p if self.poly is None else p.add(self.poly)

    # -- arithmetic
    def __add__(self, o):
        if type(o) is not SymInt:
            if isinstance(o, (float, Fraction)) or type(o) is SymReal:
                return toreal(self) + o
            if not isintlike(o):
                return NotImplemented if not _isarr(o) else _arrop(operator.add, self, o)
        f1, p1 = self.fin, self.poly
        f2, p2 = parts(o)
        return mknum(*addparts(f1, p1, f2, p2, 1))

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is not SymInt:
            if isinstance(o, (float, Fraction)) or type(o) is SymReal:
                return toreal(self) - o
            if not isintlike(o):
                return NotImplemented if not _isarr(o) else _arrop(operator.sub, self, o)
        f2, p2 = parts(o)
        return mknum(*addparts(self.fin, self.poly, f2, p2, -1))

    def __rsub__(self, o):
        if isinstance(o, (float, Fraction)) or type(o) is SymReal:
            return o - toreal(self)
        if not isintlike(o):
            return NotImplemented if not _isarr(o) else _arrop(operator.sub, o, self)
        f1, p1 = parts(o)
        return mknum(*addparts(f1, p1, self.fin, self.poly, -1))

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.poly is None:
            return self.map(abs, 'abs')
        return self if self >= 0 else -self

    def __mul__(self, o):
        if type(o) is not SymInt:
            if isinstance(o, (list, tuple, str, bytes)):
                return o * self.concretise()
            if isinstance(o, (float, Fraction)) or type(o) is SymReal:
                return toreal(self) * o
            if not isintlike(o):
                return NotImplemented if not _isarr(o) else _arrop(operator.mul, self, o)
        f1, p1 = self.fin, self.poly
        f2, p2 = parts(o)
        E = core.cur
        if f2 is None and p2.is_const():
            c = p2.constval()
            if c == 0:
                return 0
            if c == 1:
                return self
            return mknum(None if f1 is None else E.fin_map(f1, lambda v: v * c, ('*', c)),
                         None if p1 is None else p1.scale(c))
        if p1 is None and p2 is None:
            if f1.id > f2.id:
                f1, f2 = f2, f1
            return mknum(E.fin_bin(f1, f2, operator.mul, '*'), None)
        # multiplication by a 0/1 or tiny-domain value could be split; use opaque variables
        a = self.aspoly()
        b = o.aspoly() if type(o) is SymInt else (o.asint().aspoly() if type(o) is SymBool else p2)
        return mknum(None, a.mul(b))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if _isarr(o):
            return _arrop(operator.floordiv, self, o)
        if not isintlike(o):
            return NotImplemented
        return divmod_(self, o)[0]

    def __rfloordiv__(self, o):
        if _isarr(o):
            return _arrop(operator.floordiv, o, self)
        return divmod_(o, self)[0]

    def __mod__(self, o):
        if _isarr(o):
            return _arrop(operator.mod, self, o)
        if not isintlike(o):
            return NotImplemented
        return divmod_(self, o)[1]

    def __rmod__(self, o):
        if _isarr(o):
            return _arrop(operator.mod, o, self)
        if isinstance(o, str):
            return str.__mod__(o, self.concretise())
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        return divmod_(self, o)

    def __rdivmod__(self, o):
        return divmod_(o, self)

    def __truediv__(self, o):
        if _isarr(o):
            return _arrop(operator.truediv, self, o)
        return toreal(self) / o

    def __rtruediv__(self, o):
        if _isarr(o):
            return _arrop(operator.truediv, o, self)
        return toreal(o) / self

    def __pow__(self, e, mod=None):
        if mod is not None:
            return (self ** e) % mod
        if type(e) is SymInt:
            if self.poly is None and e.poly is None:
                E = core.cur
                return mknum(E.fin_bin(self.fin, e.fin, operator.pow, '**'), None)
            e = e.concretise()
        if isinstance(e, float):
            return self.concretise() ** e
        if e < 0:
            return Fraction(1) / (toreal(self) ** -e)
        if self.poly is None:
            return self.map(lambda v: v ** e, ('pow', e))
        r = 1
        for _ in range(e):
            r = r * self
        return r

    def __rpow__(self, b):
        if self.poly is None and isinstance(b, int):
            if any(v < 0 for v, _ in self.fin.items):
                if self < 0:
                    return b ** self.concretise()
                return self.map(lambda v: b ** max(v, 0), ('rpow0', b))
            return self.map(lambda v: b ** v, ('rpow', b))
        return b ** self.concretise()

    def _bit(self, o, op, name):
        if not isintlike(o):
            return NotImplemented if not _isarr(o) else _arrop(op, self, o)
        a = self if self.poly is None else self.concretise()
        if type(o) is SymBool:
            o = o.asint()
        if type(o) is SymInt:
            if o.poly is not None:
                o = o.concretise()
        if type(a) is not SymInt and type(o) is not SymInt:
            return op(a, int(o))
        E = core.cur
        fa = a.fin if type(a) is SymInt else E.mkfin([(int(a), TRUE)])
        fo = o.fin if type(o) is SymInt else E.mkfin([(int(o), TRUE)])
        return mknum(E.fin_bin(fa, fo, op, name), None)

    def __and__(self, o):
        return self._bit(o, operator.and_, '&')
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, operator.or_, '|')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, operator.xor, '^')
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self._bit(nonneg(o, 'negative shift count'), operator.lshift, '<<')

    def __rlshift__(self, o):
        a = nonneg(self, 'negative shift count')
        return a._bit(o, lambda a, b: b << a, 'r<<') if type(a) is SymInt else o << a

    def __rshift__(self, o):
        return self._bit(nonneg(o, 'negative shift count'), operator.rshift, '>>')

    def __rrshift__(self, o):
        a = nonneg(self, 'negative shift count')
        return a._bit(o, lambda a, b: b >> a, 'r>>') if type(a) is SymInt else o >> a

    def __invert__(self):
        return -1 - self

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    # -- comparison
    def __eq__(self, o):
        if type(o) is not SymInt:
            if isinstance(o, (float, Fraction)) or type(o) is SymReal:
                return toreal(self) == o
            if _isarr(o):
                return _arrop(operator.eq, self, o)
            if not isintlike(o):
                return NotImplemented
        return mkbool(eq_lit(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if _isarr(r):
            return _arrop(operator.ne, self, o)
        return sym_not(r)

    def __le__(self, o):
        if _isarr(o):
            return _arrop(operator.le, self, o)
        if isinstance(o, (float, Fraction)) or type(o) is SymReal:
            return toreal(self) <= o
        if not isintlike(o):
            return NotImplemented
        return mkbool(le_lit(self, o))

    def __lt__(self, o):
        if _isarr(o):
            return _arrop(operator.lt, self, o)
        if isinstance(o, (float, Fraction)) or type(o) is SymReal:
            return toreal(self) < o
        if not isintlike(o):
            return NotImplemented
        return mkbool(-le_lit(o, self))

    def __ge__(self, o):
        if _isarr(o):
            return _arrop(operator.ge, self, o)
        if isinstance(o, (float, Fraction)) or type(o) is SymReal:
            return toreal(self) >= o
        if not isintlike(o):
            return NotImplemented
        return mkbool(le_lit(o, self))

    def __gt__(self, o):
        if _isarr(o):
            return _arrop(operator.gt, self, o)
        if isinstance(o, (float, Fraction)) or type(o) is SymReal:
            return toreal(self) > o
        if not isintlike(o):
            return NotImplemented
        return mkbool(-le_lit(self, o))


def _isarr(o):
    import numpy
    return isinstance(o, numpy.ndarray)


def _arrop(op, a, b):
    from . import nd
    return nd.binop(op, a, b)


def eq_lit(a, b):
    E = core.cur
    f1, p1 = parts(a)
    f2, p2 = parts(b)
    p = None
    if p1 is not None or p2 is not None:
        p = (p1 or P({})).add(p2, -1) if p2 is not None else p1
    if p is None or p.is_const():
        c = 0 if p is None else p.constval()     # f1 - f2 + c == 0
        if f1 is None and f2 is None:
            return TRUE if c == 0 else FALSE
        if f1 is None:
            return f2.d.get(c, FALSE)
        if f2 is None:
            return f1.d.get(-c, FALSE)
        if c:
            f1 = E.fin_map(f1, lambda v: v + c, ('+', c))
        return E.fin_eq(f1, f2)
    if f1 is None and f2 is None:
        return E.atom('eq', p)
    f, _ = addparts(f1, None, f2, None, -1)
    f, _ = (f, None)
    if len(f.items) <= 40:
        return E.lit_or([E.lit_and([l, E.atom('eq', p.addc(v))]) for v, l in f.items])
    q = SymInt(f, p).aspoly()
    return E.atom('eq', q)


def le_lit(a, b):
    """Literal for a <= b."""
    E = core.cur
    f1, p1 = parts(a)
    f2, p2 = parts(b)
    p = (p1 or P({})).add(p2, -1) if p2 is not None else (p1 or P({}))
    if p.is_const():
        c = p.constval()
        if f1 is None and f2 is None:
            return TRUE if c <= 0 else FALSE
        if f1 is None:
            return E.fin_lit(f2, lambda v: c - v <= 0)
        if f2 is None:
            return E.fin_lit(f1, lambda v: v + c <= 0)
        if f1 is f2:
            return TRUE if c <= 0 else FALSE
        if f1.hi + c <= f2.lo:
            return TRUE
        if f1.lo + c > f2.hi:
            return FALSE
        k = E.fin_bin(f1, f2, lambda u, v: int(u - v + c <= 0), ('le', c))
        return k.d.get(1, FALSE) if k.const is None else (TRUE if k.const else FALSE)
    if f1 is None and f2 is None:
        return E.atom('le', p)
    f, _ = addparts(f1, None, f2, None, -1)
    if len(f.items) <= 40:
        return E.lit_or([E.lit_and([l, E.atom('le', p.addc(v))]) for v, l in f.items])
    return E.atom('le', SymInt(f, p).aspoly())


def divmod_(a, b):
    """Python floor division and remainder."""
    E = core.cur
    if type(a) is SymBool:
        a = a.asint()
    if type(b) is SymBool:
        b = b.asint()
    fb, pb = parts(b)
    if pb is not None and not pb.is_const() or (fb is not None and pb is not None):
        b = b.concretise()
        fb, pb = parts(b)
    if fb is not None:
        if type(a) is not SymInt or a.poly is None:
            if 0 in fb.d:
                if E.decide(fb.d[0]):
                    raise ZeroDivisionError('integer division or modulo by zero')
            fa = a.fin if type(a) is SymInt else E.mkfin([(int(a), TRUE)])
            q = E.fin_bin(fa, fb, lambda u, v: u // v if v else 0, '//')
            r = E.fin_bin(fa, fb, lambda u, v: u % v if v else 0, '%')
            return mknum(q, None), mknum(r, None)
        b = b.concretise()
        fb, pb = parts(b)
    m = pb.constval()
    if m == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if type(a) is not SymInt:
        return divmod(int(a), m)
    if a.poly is None:
        return (mknum(E.fin_map(a.fin, lambda v: v // m, ('//', m)), None),
                mknum(E.fin_map(a.fin, lambda v: v % m, ('%', m)), None))
    # coefficients divisible by m: exact
    p = a.poly
    if all(c % m == 0 for mono, c in p.t.items() if mono):
        c0 = p.constval()
        pq = P({mono: c // m for mono, c in p.t.items() if mono})
        f = E.mkfin([(c0, TRUE)]) if a.fin is None else (E.fin_map(a.fin, lambda v: v + c0, ('+', c0)) if c0 else a.fin)
        q = E.fin_map(f, lambda v: v // m, ('//', m))
        r = E.fin_map(f, lambda v: v % m, ('%', m))
        return mknum(q, pq), mknum(r, None)
    if m < 0:
        q, r = divmod_(-a, -m)
        return q, -r
    p = a.aspoly()
    lo, hi = p.bounds(E)
    if lo is not None and lo >= 0 and hi is not None and hi < m:
        return 0, a
    # canonical residue polynomial: substitute earlier residues for the same modulus, reduce coefficients
    sub = subst_mod(p, m)
    red = P({mono: c % m for mono, c in sub.t.items() if c % m})
    if red.is_const():
        r = red.constval()
    else:
        rlo, rhi = red.bounds(E)
        if rlo is not None and rlo >= 0 and rhi is not None and rhi < m:
            r = mknum(None, red)
        else:
            tv = E.fresh_def(('mod', m, red.key()), 'int', 0, m - 1, 'mod', (red, m))
            r = mknum(None, P.var(tv.id))
    tq = E.fresh_def(('div', m, p.key()), 'int', None if lo is None else lo // m, None if hi is None else hi // m,
                     'div', (p, m))
    return mknum(None, P.var(tq.id)), r


def subst_mod(p, m):
    E = core.cur
    if not any(E.tvars[i].kind == 'mod' and E.tvars[i].data[1] % m == 0 for i in p.vars()):
        return p
    out = P({})
    for mono, c in p.t.items():
        term = P.const(c)
        for i in mono:
            tv = E.tvars[i]
            if tv.kind == 'mod' and tv.data[1] % m == 0:
                term = term.mul(tv.data[0])
                term = P({k: v % m for k, v in term.t.items() if v % m})
            else:
                term = term.mul(P.var(i))
        out = out.add(term)
    return subst_mod(out, m)


# --------------------------------------------------------------------------------------------------
# Reals
# --------------------------------------------------------------------------------------------------

def toreal(x):
    t = type(x)
    if t is SymReal:
        return x
    if t is SymInt:
        return SymReal(x.aspoly())
    if t is SymBool:
        return toreal(x.asint())
    if isinstance(x, Fraction):
        return SymReal(P.const(x))
    if isinstance(x, float) or hasattr(x, '__float__') and not isinstance(x, int):
        return SymReal(P.const(Fraction(float(x))))
    return SymReal(P.const(int(x)))


class SymReal:
    """A real-valued polynomial (floats are modelled as exact reals)."""
    __slots__ = ('poly',)
    __array_ufunc__ = None

    def __init__(self, poly):
        self.poly = poly

    @property
    def __class__(self):
        return float

    def const(self):
        return self.poly.constval() if self.poly.is_const() else None

    @staticmethod
    def ok(o):
        return type(o) in (SymReal, SymInt, SymBool, int, float, Fraction, bool) or isinstance(o, (int, float)) or hasattr(o, '__float__')

    def __add__(self, o):
        if _isarr(o):
            return _arrop(operator.add, self, o)
        return SymReal(self.poly.add(toreal(o).poly))
    __radd__ = __add__

    def __sub__(self, o):
        if _isarr(o):
            return _arrop(operator.sub, self, o)
        return SymReal(self.poly.add(toreal(o).poly, -1))

    def __rsub__(self, o):
        return SymReal(toreal(o).poly.add(self.poly, -1))

    def __neg__(self):
        return SymReal(self.poly.scale(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if _isarr(o):
            return _arrop(operator.mul, self, o)
        return SymReal(self.poly.mul(toreal(o).poly))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isarr(o):
            return _arrop(operator.truediv, self, o)
        return rdiv(self, toreal(o))

    def __rtruediv__(self, o):
        return rdiv(toreal(o), self)

    def __pow__(self, e):
        r = SymReal(P.const(1))
        for _ in range(int(e)):
            r = r * self
        return r

    def __eq__(self, o):
        if not SymReal.ok(o):
            return NotImplemented
        return mkbool(core.cur.atom('eq', self.poly.add(toreal(o).poly, -1)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __le__(self, o):
        return mkbool(core.cur.atom('le', self.poly.add(toreal(o).poly, -1)))

    def __ge__(self, o):
        return mkbool(core.cur.atom('le', toreal(o).poly.add(self.poly, -1)))

    def __lt__(self, o):
        return sym_not(self >= o)

    def __gt__(self, o):
        return sym_not(self <= o)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.const()
        if c is None:
            raise EngineError('symbolic real converted to float')
        return float(c)

    def __int__(self):
        return int(self.__float__())

    def __hash__(self):
        c = self.const()
        if c is None:
            raise EngineError('hash of symbolic real')
        return hash(c)

    def __repr__(self):
        return '<real>'


def rdiv(a, b):
    E = core.cur
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError('division by zero')
        return SymReal(a.poly.scale(Fraction(1) / Fraction(c)))
    if bool(b == 0):
        raise ZeroDivisionError('float division by zero')
    tv = E.fresh_def(('quot', a.poly.key(), b.poly.key()), 'real', None, None, 'quot', (a.poly, b.poly))
    return SymReal(P.var(tv.id))


# --------------------------------------------------------------------------------------------------
# Structural helpers
# --------------------------------------------------------------------------------------------------

_dcfields = {}


def dcfields(cls):
    r = _dcfields.get(cls)
    if r is None:
        try:
            fs = dataclasses.fields(cls)
            gen = cls.__eq__.__code__.co_filename == '<string>'
            r = (tuple(f.name for f in fs), tuple(f.name for f in fs if f.compare), gen)
        except (TypeError, AttributeError):
            r = ()
        _dcfields[cls] = r
    return r


def has_sym(x, depth=6):
    t = type(x)
    if t is int or t is str or t is bool or t is float or x is None:
        return False
    if t is SymInt or t is SymBool or t is SymReal or t is SymRow:
        return True
    if depth == 0:
        return False
    if t is tuple or t is list:
        for y in x:
            ty = type(y)
            if ty is int or ty is str:
                continue
            if has_sym(y, depth - 1):
                return True
        return False
    if t is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    fs = dcfields(t)
    if fs:
        for n in fs[0]:
            if has_sym(getattr(x, n, None), depth - 1):
                return True
    return False


def sym_eq(a, b):
    """Structural equality as a (possibly symbolic) truth value."""
    ta, tb = type(a), type(b)
    if ta is int and tb is int or ta is str:
        return a == b
    if ta is SymInt or ta is SymBool or ta is SymReal:
        r = ta.__eq__(a, b)
        return False if r is NotImplemented else r
    if tb is SymInt or tb is SymBool or tb is SymReal:
        r = tb.__eq__(b, a)
        return False if r is NotImplemented else r
    if ta is SymRow:
        a = list(a)
        ta = list
    if tb is SymRow:
        b = list(b)
        tb = list
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        if len(a) != len(b):
            return False
        lits = []
        for x, y in zip(a, b):
            r = sym_eq(x, y)
            if r is False:
                return False
            if r is not True:
                lits.append(blit(r))
        if not lits:
            return True
        return mkbool(core.cur.lit_and(lits))
    if ta is tb and ta not in (dict, set, frozenset):
        fs = dcfields(ta)
        if fs and fs[2]:
            return sym_eq(tuple(getattr(a, n) for n in fs[1]), tuple(getattr(b, n) for n in fs[1]))
    if ta is dict and tb is dict and (has_sym(a) or has_sym(b)):
        if len(a) != len(b):
            return False
        lits = []
        for k, v in a.items():
            if k not in b:
                return False
            lits.append(blit(sym_eq(v, b[k])))
        return mkbool(core.cur.lit_and(lits))
    return a == b


def merge(guarded):
    """Merge alternatives [(lit, value)] (exactly one literal holds on the current path, and they are mutually
    exclusive). Returns a merged value or raises Unmergeable."""
    E = core.cur
    known = E.known
    live = []
    for l, v in guarded:
        if l == FALSE:
            continue
        k = known.get(abs(l))
        if k is not None:
            if k if l > 0 else not k:
                return v
            continue
        live.append((l, v))
    if not live:
        raise core.PathAbort()
    if len(live) == 1:
        return live[0][1]
    v0 = live[0][1]
    if all(v is v0 for _, v in live):
        return v0
    ts = {type(v) for _, v in live}
    if ts <= {bool, SymBool}:
        vals = [(l, blit(v)) for l, v in live]
        if all(x == vals[0][1] for _, x in vals):
            return mkbool(vals[0][1])
        if len(live) == 2 and live[0][0] == -live[1][0]:
            return mkbool(E.lit_ite(live[0][0], vals[0][1], vals[1][1]))
        if all(x in (TRUE, FALSE) for _, x in vals):
            # the guards may not be exhaustive off-path, which is fine
            return mkbool(E.lit_or([l for l, x in vals if x == TRUE]))
        k = ('mergeb', tuple(sorted(vals)))
        r = E.memo.get(k)
        if r is None:
            r = E.newvar()
            cl = []
            fan = set()
            for l, x in vals:
                fan.add(abs(l))
                fan.add(abs(x))
                if x != FALSE:
                    cl.append([-l, -x, r])
                if x != TRUE:
                    cl.append([-l, x, -r])
            E.add_group([r], cl, fan)
            E.memo[k] = r
        return mkbool(r)
    if ts <= {int, bool, SymInt, SymBool} or all(isinstance(v, int) for _, v in live):
        ps = [(l,) + parts(v) for l, v in live]
        poly0 = None
        same = True
        rows = []
        for l, f, p in ps:
            c = 0
            q = None
            if p is not None:
                c = p.constval()
                q = p.addc(-c)
                if not q.t:
                    q = None
            rows.append((l, f, c, q))
        q0 = rows[0][3]
        k0 = q0.key() if q0 is not None else None
        same = all((q.key() if q is not None else None) == k0 for _, _, _, q in rows)
        if same:
            key = ('mergei', tuple((l, f.id if f is not None else None, c) for l, f, c, _ in rows))
            r = E.memo.get(key)
            if r is None:
                if all(f is None for _, f, _, _ in rows):
                    by = {}
                    for l, f, c, _ in rows:
                        by.setdefault(c, []).append(l)
                    if len(by) == 1:
                        r = E.mkfin([(next(iter(by)), TRUE)])
                    else:
                        r = E.fin_from([((l,), c) for l, f, c, _ in rows])
                else:
                    pairs = []
                    for l, f, c, _ in rows:
                        if f is None:
                            pairs.append(((l,), c))
                        else:
                            for v, h in f.items:
                                pairs.append(((l, h), v + c))
                    r = E.fin_from(pairs)
                E.memo[key] = r
            return mknum(r, q0)
        alts = []
        for l, f, p in ps:
            alts.append((l, (SymInt(f, p).aspoly() if f is not None else p)))
        los, his = zip(*[p.bounds(E) for _, p in alts])
        lo = None if any(x is None for x in los) else min(los)
        hi = None if any(x is None for x in his) else max(his)
        tv = E.fresh_def(('ite', tuple((l, p.key()) for l, p in alts)), 'int', lo, hi, 'ite', alts)
        return mknum(None, P.var(tv.id))
    if ts <= {int, bool, float, SymInt, SymBool, SymReal, Fraction}:
        alts = [(l, toreal(v).poly) for l, v in live]
        tv = E.fresh_def(('iter', tuple((l, p.key()) for l, p in alts)), 'real', None, None, 'ite', alts)
        return SymReal(P.var(tv.id))
    if len(ts) == 1:
        t = next(iter(ts))
        if t is tuple:
            n = len(v0)
            if all(len(v) == n for _, v in live):
                return tuple(merge([(l, v[i]) for l, v in live]) for i in range(n))
            raise Unmergeable()
        if t is list:
            return SymRow([(l, v) for l, v in live])
        if t is SymRow:
            out = []
            for l, row in live:
                for l2, r2 in row.alts:
                    out.append((E.lit_and([l, l2]), r2))
            return SymRow(out)
        if t is str or v0 is None:
            if all(v == v0 for _, v in live):
                return v0
            raise Unmergeable()
        fs = dcfields(t)
        if fs and fs[2]:
            vals = {}
            for n in fs[0]:
                vals[n] = merge([(l, getattr(v, n)) for l, v in live])
            o = object.__new__(t)
            for n, x in vals.items():
                object.__setattr__(o, n, x)
            return o
    raise Unmergeable()


class Unmergeable(Exception):
    pass


def merge_or_fork(guarded):
    """Merge the alternatives, or branch on them when they cannot be merged."""
    try:
        return merge(guarded)
    except Unmergeable:
        pass
    E = core.cur
    # group identical objects
    groups = []
    for l, v in guarded:
        for g in groups:
            if g[1] is v or (type(g[1]) is type(v) and type(v) in (str, int, type(None)) and g[1] == v):
                g[0].append(l)
                break
        else:
            groups.append(([l], v))
    for ls, v in groups[:-1]:
        if E.decide(E.lit_or(ls)):
            return v
    return groups[-1][1]


def index_fin(i, n):
    """Turn a symbolic index into a list of (lit, concrete index in [0, n)); raises IndexError on the paths where it
    is out of range."""
    E = core.cur
    if type(i) is SymBool:
        i = i.asint()
    if i.poly is not None:
        lo, hi = i.bounds()
        if lo is None or hi is None or hi - lo > 4000:
            if not (bool(i >= -n) and bool(i < n)):
                raise IndexError('list index out of range')
            items = [(v, blit(i == v)) for v in range(-n, n)]
        else:
            items = [(v, blit(i == v)) for v in range(lo, hi + 1)]
    else:
        v = known_fin(i.fin)
        if v is not None:
            if not -n <= v < n:
                raise IndexError('list index out of range')
            return [(TRUE, v % n)]
        items = list(i.fin.items)
    good = [(v, l) for v, l in items if -n <= v < n and l != FALSE]
    if len(good) < len(items):
        bad = [l for v, l in items if not -n <= v < n]
        bl = E.lit_or(bad)
        if bl != FALSE and E.decide(bl):
            raise IndexError('list index out of range')
    return [(l, v % n if v < 0 else v) for v, l in good]


def _tabkey(t):
    E = core.cur
    if id(t) in E.frozen:
        return ('id', id(t))
    if len(t) <= 5000 and all(type(x) is int for x in t):
        return tuple(t)
    return None


def select(t, i):
    """t[i] for a list/tuple t and symbolic index i."""
    E = core.cur
    if type(i) is SymInt and i.poly is None and i.fin.lo >= 0 and i.fin.hi < len(t):
        v = known_fin(i.fin)
        if v is not None:
            return t[v]
        k = _tabkey(t)
        if k is not None:
            kk = ('select', k, i.fin.id)
            r = E.memo.get(kk)
            if r is None:
                if all(type(t[v]) is int for v, _ in i.fin.items):
                    r = ('f', E.fin_map(i.fin, lambda v: t[v], None))
                else:
                    try:
                        r = ('v', _merge_nopath([(l, t[v]) for v, l in i.fin.items]))
                    except Unmergeable:
                        r = ('x', None)
                E.memo[kk] = r
            if r[0] == 'f':
                return mknum(r[1], None)
            if r[0] == 'v':
                return r[1]
    g = index_fin(i, len(t))
    return merge_or_fork([(l, t[v]) for l, v in g])


def _merge_nopath(alts):
    """Merge without consulting the current path (result may be memoised)."""
    E = core.cur
    saved = E.known
    E.known = {1: True}
    try:
        return merge(alts)
    finally:
        E.known = saved


class SymRow:
    """A symbolic choice between lists (read-only)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    @property
    def __class__(self):
        return list

    def live(self):
        known = core.cur.known
        out = []
        for l, r in self.alts:
            k = known.get(abs(l))
            if k is None:
                out.append((l, r))
            elif k if l > 0 else not k:
                return [(TRUE, r)]
        return out

    def restrict(self):
        """Fix the length (branching)."""
        E = core.cur
        live = self.live()
        lens = {}
        for l, r in live:
            lens.setdefault(len(r), []).append((l, r))
        if len(lens) == 1:
            return live, next(iter(lens))
        ks = sorted(lens)
        for n in ks[:-1]:
            if E.decide(E.lit_or([l for l, _ in lens[n]])):
                return lens[n], n
        return lens[ks[-1]], ks[-1]

    def __len__(self):
        return self.restrict()[1]

    def __bool__(self):
        return self.restrict()[1] > 0

    def __iter__(self):
        live, n = self.restrict()
        for j in range(n):
            yield merge_or_fork([(l, r[j]) for l, r in live])

    def __reversed__(self):
        return reversed(list(self))

    def __contains__(self, x):
        return bool(contains(self, x))

    def __add__(self, o):
        return list(self) + list(o)

    def __radd__(self, o):
        return list(o) + list(self)

    def index(self, x):
        return list(self).index(x)

    def count(self, x):
        return list(self).count(x)

    def copy(self):
        return list(self)

    def __hash__(self):
        raise TypeError("unhashable type: 'list'")

    def __eq__(self, o):
        return sym_eq(list(self), list(o) if type(o) is SymRow else o)

    def __getitem__(self, j):
        if type(j) is SymBool:
            j = j.asint()
        E = core.cur
        if type(j) is SymInt:
            live = self.live()
            ns = {len(r) for _, r in live}
            if len(ns) == 1 and j.poly is None and known_fin(j.fin) is None and 0 <= j.fin.lo and j.fin.hi < min(ns) \
                    and len(live) > 1:
                return self.pair(live, j.fin)
            live, n = self.restrict()
            g = index_fin(j, n)
            alts = []
            for l, r in live:
                for l2, v in g:
                    alts.append((E.lit_and([l, l2]), r[v]))
            return merge_or_fork(alts)
        if isinstance(j, slice):
            return list(self)[j]
        live = self.live()
        if all(-len(r) <= j < len(r) for _, r in live):
            return merge_or_fork([(l, r[j]) for l, r in live])
        live, n = self.restrict()
        return merge_or_fork([(l, r[j]) for l, r in live])

    def pair(self, live, f):
        """Two-dimensional table lookup."""
        E = core.cur
        frozen = all(id(r) in E.frozen for _, r in live)
        key = ('pair', tuple((l, id(r)) for l, r in live), f.id) if frozen else None
        if key is not None and key in E.memo:
            return E.memo[key]
        samples = live[0][1][0]
        if type(samples) is tuple:
            n = len(samples)
            res = tuple(self._pair(live, f, lambda x, k=k: x[k]) for k in range(n))
        else:
            res = self._pair(live, f, lambda x: x)
        if key is not None:
            E.memo[key] = res
        return res

    def _pair(self, live, f, get):
        E = core.cur
        vals = [(l, h, get(r[v])) for l, r in live for v, h in f.items]
        ts = {type(x) for _, _, x in vals}
        if ts == {int}:
            if len({x for _, _, x in vals}) == 1:
                return vals[0][2]
            return mknum(E.fin_from([((l, h), x) for l, h, x in vals]), None)
        if ts == {bool}:
            if len({x for _, _, x in vals}) == 1:
                return vals[0][2]
            r = E.newvar()
            fan = set()
            cl = []
            for l, h, x in vals:
                fan.add(abs(l))
                fan.add(abs(h))
                cl.append([-l, -h, r if x else -r])
            E.add_group([r], cl, fan)
            return SymBool(r)
        return merge_or_fork([(E.lit_and([l, h]), x) for l, h, x in vals])


def contains(c, x):
    """x in c, without branching where possible."""
    if isinstance(c, (str, bytes, range)):
        if type(c) is range and type(x) is SymInt:
            return mkbool(core.cur.lit_or([blit(x == v) for v in c]))
        return x in c
    t = type(c)
    if t in (dict, set, frozenset) or isinstance(c, dict):
        if not has_sym(x):
            return x in c     # the keys were hashed, hence concrete on this path
        lits = []
        for y in c:
            r = sym_eq(y, x)
            if r is True:
                return True
            if r is not False:
                lits.append(blit(r))
        return mkbool(core.cur.lit_or(lits))
    if t in (list, tuple, SymRow):
        if not has_sym(x) and not has_sym(c):
            return x in c
        lits = []
        for y in c:
            r = True if y is x else sym_eq(y, x)
            if r is True:
                return True
            if r is not False:
                lits.append(blit(r))
        return mkbool(core.cur.lit_or(lits))
    return x in c


def dict_get(d, key):
    """d[key] with a symbolic key; KeyError on the paths where it is absent."""
    E = core.cur
    alts = []
    for k, v in d.items():
        r = sym_eq(k, key)
        if r is True:
            return v
        if r is not False:
            alts.append((blit(r), v))
    present = E.lit_or([l for l, _ in alts])
    if not E.decide(present):
        raise KeyError('symbolic key')
    return merge_or_fork(alts)
