"""A numpy stand-in for symbolic entries: ndarray subclass with object storage and a claimed machine dtype."""
import math
import operator
from fractions import Fraction

import numpy as np

from . import core
from .core import TRUE, FALSE
from .values import (SymBool, SymInt, SymReal, blit, has_sym, issym, merge, mkbool, sym_eq, sym_not, toreal, merge_or_fork)

WRAP_ALARM = []      # (dtype, value) whenever a claimed machine integer may leave its range


def truth(x):
    t = type(x)
    if t is SymBool:
        return x.l
    if t is bool or isinstance(x, (bool, np.bool_)) and t is not SymBool:
        return TRUE if x else FALSE
    if t is SymInt or t is SymReal:
        return -blit(x == 0)
    return TRUE if x else FALSE


def _wrap1(x, dt):
    if dt.kind == 'i' or dt.kind == 'u':
        t = type(x)
        if t is SymBool:
            x = x.asint()
            t = type(x)
        if t is bool or isinstance(x, np.bool_):
            return int(x)
        bits = dt.itemsize * 8
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if dt.kind == 'i' else (0, (1 << bits) - 1)
        if t is SymInt:
            a, b = x.bounds()
            if bits == 64 and (a is None or b is None):
                return x      # unbounded symbolic entries model mathematical integers (64-bit overflow is out of scope)
            if a is not None and b is not None and lo <= a and b <= hi:
                return x
            return (x - lo) % (1 << bits) + lo
        if isinstance(x, float) and t is not SymReal:
            x = int(x)
        elif t is SymReal:
            raise core.EngineError('symbolic real stored in an integer array')
        x = int(x)
        if lo <= x <= hi:
            return x
        return (x - lo) % (1 << bits) + lo
    if dt.kind == 'b':
        l = truth(x)
        return mkbool(l)
    if dt.kind == 'f':
        t = type(x)
        if dt.itemsize < 8:
            # narrow floating point types: rounding is only modelled for concrete values
            if t is SymInt or t is SymReal:
                a, b = x.bounds() if t is SymInt else (None, None)
                m = 1 << (24 if dt.itemsize == 4 else 11)
                if a is None or b is None or a < -m or b > m:
                    raise core.EngineError('symbolic value stored in a narrow floating point array')
            elif t is not SymBool:
                return float(dt.type(x))
        if t is SymInt or t is SymBool:
            return toreal(x)
        if t is SymReal:
            return x
        return float(x)
    return x


def _wrapper(dt):
    return np.frompyfunc(lambda x: _wrap1(x, dt), 1, 1)


_wrappers = {}


def wraparr(a, dt):
    """Coerce the elements of a plain object array to the claimed dtype."""
    if dt is None or dt == object or a.size == 0:
        return a
    w = _wrappers.get(dt)
    if w is None:
        w = _wrappers[dt] = _wrapper(dt)
    return w(a)


def mk(a, dt):
    """Object ndarray (or scalar) -> SymND."""
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype != object:
        a = a.astype(object)
    r = a.view(SymND)
    r._cdt = np.dtype(dt)
    return r


def plain(a):
    if isinstance(a, SymND):
        return a.view(np.ndarray)
    return a


def cdt_of(x):
    if isinstance(x, SymND):
        return x._cdt
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return x.dtype
    return None


def _ite(c, a, b):
    l = blit(c) if not isinstance(c, np.bool_) else (TRUE if c else FALSE)
    if l == TRUE:
        return a
    if l == FALSE:
        return b
    if not has_sym(a) and not has_sym(b) and type(a) is type(b) and a == b:
        return a
    return merge_or_fork([(l, a), (-l, b)])


def _maximum(a, b):
    return _ite(b > a, b, a)


def _minimum(a, b):
    return _ite(b < a, b, a)


def _fdiv(a, b):
    if issym(a) or issym(b):
        return toreal(a) / toreal(b)
    if b == 0:
        a = float(a)
        return math.nan if a == 0 or math.isnan(a) else math.inf if a > 0 else -math.inf
    return a / b


def _imod(a, b):
    if not issym(b) and b == 0:
        return 0
    return a % b


def _ifd(a, b):
    if not issym(b) and b == 0:
        return 0
    return a // b


def _sign(a):
    return _ite(a > 0, 1, _ite(a < 0, -1, 0))


PYOPS = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'remainder': _imod, 'mod': _imod,
    'floor_divide': _ifd, 'true_divide': _fdiv, 'divide': _fdiv, 'power': operator.pow, 'negative': operator.neg,
    'positive': operator.pos, 'absolute': abs, 'equal': sym_eq, 'not_equal': lambda a, b: sym_not(sym_eq(a, b)),
    'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge,
    'logical_and': lambda a, b: mkbool(core.cur.lit_and([truth(a), truth(b)])),
    'logical_or': lambda a, b: mkbool(core.cur.lit_or([truth(a), truth(b)])),
    'logical_xor': lambda a, b: mkbool(-core.cur.lit_iff(truth(a), truth(b))),
    'logical_not': lambda a: mkbool(-truth(a)),
    'bitwise_and': operator.and_, 'bitwise_or': operator.or_, 'bitwise_xor': operator.xor,
    'left_shift': operator.lshift, 'right_shift': operator.rshift,
    'maximum': _maximum, 'minimum': _minimum, 'fmax': _maximum, 'fmin': _minimum, 'sign': _sign,
    'square': lambda a: a * a, 'isfinite': lambda a: True, 'isnan': lambda a: False,
}
_pyufunc = {}


def pyufunc(name, nin):
    f = _pyufunc.get(name)
    if f is None:
        f = _pyufunc[name] = np.frompyfunc(PYOPS[name], nin, 1)
    return f


_rtcache = {}


def result_dtype(ufunc, inputs):
    key = (ufunc.__name__,) + tuple(('d', cdt_of(x)) if cdt_of(x) is not None else
                                    ('b' if isinstance(x, bool) else 'i' if isinstance(x, int) else 'f') for x in inputs)
    r = _rtcache.get(key)
    if r is None:
        shape = (1, 1) if ufunc.__name__ == 'matmul' else (1,)
        args = []
        for x in inputs:
            d = cdt_of(x)
            if d is not None:
                args.append(np.ones(shape, dtype=d))
            else:
                args.append(True if isinstance(x, bool) else 1 if isinstance(x, int) else 1.0)
        try:
            with np.errstate(all='ignore'):
                r = ufunc(*args).dtype
        except TypeError:
            r = np.dtype(object)
        _rtcache[key] = r
    return r


def binop(op, a, b):
    name = {operator.add: 'add', operator.sub: 'subtract', operator.mul: 'multiply', operator.floordiv: 'floor_divide',
            operator.mod: 'remainder', operator.truediv: 'true_divide', operator.eq: 'equal', operator.ne: 'not_equal',
            operator.le: 'less_equal', operator.lt: 'less', operator.ge: 'greater_equal', operator.gt: 'greater',
            operator.and_: 'bitwise_and', operator.or_: 'bitwise_or', operator.xor: 'bitwise_xor',
            operator.lshift: 'left_shift', operator.rshift: 'right_shift'}[op]
    return apply_ufunc(getattr(np, name), [a, b])


def _obj0(x):
    """Scalar -> 0-d object array (so that frompyfunc broadcasts it untouched)."""
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def scalar0(x):
    """A number as a 0-d array."""
    o = _obj0(x)
    return mk(o, _infer(o))


def apply_ufunc(ufunc, inputs, out=None):
    dt = result_dtype(ufunc, inputs)
    arrs = []
    for x in inputs:
        if isinstance(x, SymND):
            arrs.append(x.view(np.ndarray))
        elif isinstance(x, np.ndarray):
            arrs.append(x.astype(object))
        elif isinstance(x, (list, tuple)):
            arrs.append(plain(asarray(x)))
        else:
            arrs.append(_obj0(x.item() if isinstance(x, np.generic) else x))
    if ufunc.__name__ == 'matmul':
        res = matmul_obj(arrs[0], arrs[1])
    else:
        name = ufunc.__name__
        if name == 'invert':
            res = np.frompyfunc((lambda a: mkbool(-truth(a))) if dt.kind == 'b' else operator.invert, 1, 1)(arrs[0])
        elif name in ('bitwise_and', 'bitwise_or', 'bitwise_xor') and dt.kind == 'b':
            res = pyufunc(name.replace('bitwise', 'logical'), 2)(*arrs)
        elif name in PYOPS:
            res = pyufunc(name, len(arrs))(*arrs)
        else:
            # unknown ufunc: concretise
            conc = [concretise(mk(a, cdt_of(x) or np.dtype(object))) for a, x in zip(arrs, inputs)]
            return ufunc(*conc)
    if not isinstance(res, np.ndarray):
        res = _wrap1(res, dt)
        if out is not None:
            out[...] = res
            return out
        return np.bool_(res) if type(res) is bool else res
    res = wraparr(res, dt)
    if out is not None:
        o = plain(out)
        o[...] = wraparr(res, cdt_of(out))
        return out
    return mk(res, dt)


def matmul_obj(a, b):
    if a.ndim < 2 or b.ndim < 2:
        return np.matmul(a, b)
    J = a.shape[-1]
    if J == 0:
        r = np.empty(np.broadcast_shapes(a.shape[:-2], b.shape[:-2]) + (a.shape[-2], b.shape[-1]), dtype=object)
        r[...] = 0
        return r
    res = None
    for j in range(J):
        t = a[..., :, j][..., :, None] * b[..., j, :][..., None, :]
        res = t if res is None else res + t
    return res


def concretise(a):
    """Concrete numpy array with the claimed dtype (branching over the symbolic entries)."""
    if not isinstance(a, SymND):
        return a
    out = np.empty(a.shape, dtype=a._cdt)
    for i in np.ndindex(a.shape):
        x = a.view(np.ndarray)[i]
        if type(x) is SymBool:
            x = bool(x)
        elif type(x) is SymInt:
            x = x.concretise()
        elif type(x) is SymReal:
            x = float(x)
        out[i] = x
    return out


def _normaxis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(operator.index(x) % nd for x in axis))
    return (operator.index(axis) % nd,)


def _reduce(a, axis, keepdims, fn):
    """Apply fn(list of elements) along the axes."""
    p = plain(a)
    if not isinstance(p, np.ndarray):
        p = _obj0(p)
    ax = _normaxis(axis, p.ndim)
    rest = [i for i in range(p.ndim) if i not in ax]
    t = np.transpose(p, rest + list(ax))
    shape = tuple(p.shape[i] for i in rest)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = fn(list(t[i].reshape(-1)) if p.ndim and isinstance(t[i], np.ndarray) else [t[i] if p.ndim else t[()]])
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else p.shape[i] for i in range(p.ndim)))
    if out.ndim == 0:
        return out[()]
    return out


def _red(a, axis, keepdims, fn, dt):
    r = _reduce(a, axis, keepdims, fn)
    if isinstance(r, np.ndarray):
        return mk(r, dt)
    return np.bool_(r) if type(r) is bool else r


def f_any(a, axis=None, out=None, keepdims=False, **k):
    return _red(a, axis, keepdims, lambda xs: mkbool(core.cur.lit_or([truth(x) for x in xs])), bool)


def f_all(a, axis=None, out=None, keepdims=False, **k):
    return _red(a, axis, keepdims, lambda xs: mkbool(core.cur.lit_and([truth(x) for x in xs])), bool)


def f_count_nonzero(a, axis=None, keepdims=False):
    def cnt(xs):
        n = 0
        for x in xs:
            b = mkbool(truth(x))
            n = n + (b.asint() if type(b) is SymBool else int(b))
        return n
    return _red(a, axis, keepdims, cnt, np.int64)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    base = cdt_of(a)
    dt = np.dtype(dtype) if dtype is not None else (np.ones(1, dtype=base).sum().dtype)

    def s(xs):
        n = 0
        for x in xs:
            n = n + (x.asint() if type(x) is SymBool else x)
        return _wrap1(n, dt)
    return _red(a, axis, keepdims, s, dt)


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    base = cdt_of(a)
    dt = np.ones(1, dtype=base).prod().dtype

    def s(xs):
        n = 1
        for x in xs:
            n = _wrap1(n * x, dt)
        return n
    return _red(a, axis, keepdims, s, dt)


def _fold(pick):
    def f(xs):
        if not xs:
            raise ValueError('zero-size array to reduction operation which has no identity')
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return r
    return f


def f_max(a, axis=None, out=None, keepdims=False, **k):
    return _red(a, axis, keepdims, _fold(_maximum), cdt_of(a))


def f_min(a, axis=None, out=None, keepdims=False, **k):
    return _red(a, axis, keepdims, _fold(_minimum), cdt_of(a))


def _arg(better):
    def f(xs):
        if not xs:
            raise ValueError('attempt to get argmax of an empty sequence')
        if all(isinstance(x, (bool, np.bool_)) for x in xs):
            ls = [truth(x) for x in xs]
            if better == 'min':
                ls = [-l for l in ls]
            alts = []
            E = core.cur
            for j in range(len(xs)):
                g = E.lit_and([ls[j]] + [-l for l in ls[:j]])
                if j == 0:
                    g = E.lit_or([g, E.lit_and([-l for l in ls])])
                alts.append((g, j))
            alts = [(g, j) for g, j in alts if g != FALSE]
            return merge(alts)
        bi, bv = 0, xs[0]
        for j in range(1, len(xs)):
            c = (xs[j] > bv) if better == 'max' else (xs[j] < bv)
            bi = _ite(c, j, bi)
            bv = _ite(c, xs[j], bv)
        return bi
    return f


def f_argmax(a, axis=None, out=None, keepdims=False):
    return _red(a, axis, keepdims, _arg('max'), np.int64)


def f_argmin(a, axis=None, out=None, keepdims=False):
    return _red(a, axis, keepdims, _arg('min'), np.int64)


def f_nonzero(a):
    m = np.zeros(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        m[i] = bool(mkbool(truth(plain(a)[i])))
    return np.nonzero(m)


def f_flatnonzero(a):
    return f_nonzero(a.reshape(-1))[0]


def f_where(c, *ab):
    if not ab:
        return f_nonzero(asarray(c))
    a, b = ab
    da, db = cdt_of(a), cdt_of(b)
    if da is None and db is None:
        dt = np.result_type(a if not issym(a) else 1, b if not issym(b) else 1)
    elif da is None:
        dt = db if isinstance(a, (int, bool)) else np.result_type(db, np.float64)
    elif db is None:
        dt = da if isinstance(b, (int, bool)) else np.result_type(da, np.float64)
    else:
        dt = np.result_type(da, db)

    def ob(x):
        if isinstance(x, SymND):
            return x.view(np.ndarray)
        if isinstance(x, np.ndarray):
            return x.astype(object)
        return _obj0(x)
    r = np.frompyfunc(lambda c, x, y: _ite(mkbool(truth(c)), x, y), 3, 1)(ob(c), ob(a), ob(b))
    if not isinstance(r, np.ndarray):
        return _wrap1(r, dt)
    return mk(wraparr(r, dt), dt)


def f_array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return f_all(apply_ufunc(np.equal, [a, b]))


def _dts(xs):
    ds = [cdt_of(asarray(x)) for x in xs]
    return np.result_type(*ds)


def _ob(x):
    if isinstance(x, SymND):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x.astype(object)
    return plain(asarray(x))


def f_concatenate(arrs, axis=0, out=None, dtype=None, **k):
    arrs = [asarray(a) for a in arrs]
    dt = np.dtype(dtype) if dtype else _dts(arrs)
    return mk(np.concatenate([_ob(a) for a in arrs], axis=axis), dt)


def _stacklike(fn):
    def f(arrs, *a, **k):
        arrs = [asarray(x) for x in arrs]
        k.pop('dtype', None)
        return mk(fn([_ob(x) for x in arrs], *a, **k), _dts(arrs))
    return f


def f_argsort(a, axis=-1, **k):
    if a.ndim != 1:
        return np.argsort(concretise(a), axis=axis)
    import functools
    xs = list(plain(a))
    return np.array(sorted(range(len(xs)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(xs[i] < xs[j]) else 1 if bool(xs[j] < xs[i]) else 0)), dtype=np.int64)


def f_pad(a, pad_width, mode='constant', **k):
    return mk(np.pad(plain(a), pad_width, mode=mode, **k), cdt_of(a))


def f_einsum(sub, *ops, **k):
    k.pop('optimize', None)
    dt = _dts(ops)
    r = np.einsum(sub, *[_ob(o) for o in ops])
    return mk(wraparr(np.asarray(r, dtype=object), dt), dt)


def _dotlike(fn):
    def f(a, b, *args, **k):
        a, b = asarray(a), asarray(b)
        dt = _dts([a, b])
        r = fn(_ob(a), _ob(b), *args, **k)
        if not isinstance(r, np.ndarray):
            return _wrap1(r, dt)
        return mk(wraparr(r, dt), dt)
    return f


def f_matrix_rank(a, *args, **k):
    a = asarray(a)
    p = plain(a)
    if not args and not k and p.ndim >= 2 and max(p.shape[-2:]) <= 2 and p.size and any(issym(x) for x in p.reshape(-1)):
        # exact rank of small integer matrices
        nz = f_any(a, axis=(-2, -1))
        if p.shape[-2:] != (2, 2):
            return f_where(nz, 1, 0)
        det = a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
        return f_where(det != 0, 2, f_where(nz, 1, 0))
    return np.linalg.matrix_rank(concretise(a), *args, **k)


def f_like(fn):
    def f(a, *args, dtype=None, **k):
        shape = k.pop('shape', None) or a.shape
        return create(fn(shape, *args), dtype or cdt_of(a))
    return f


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = apply_ufunc(np.maximum, [r, a_min])
    if a_max is not None:
        r = apply_ufunc(np.minimum, [r, a_max])
    return r


OVERRIDES = {
    np.any: f_any, np.all: f_all, np.argmax: f_argmax, np.argmin: f_argmin, np.max: f_max, np.min: f_min,
    np.amax: f_max, np.amin: f_min, np.sum: f_sum, np.prod: f_prod, np.count_nonzero: f_count_nonzero,
    np.where: f_where, np.nonzero: f_nonzero, np.flatnonzero: f_flatnonzero, np.array_equal: f_array_equal,
    np.concatenate: f_concatenate, np.stack: _stacklike(np.stack), np.vstack: _stacklike(np.vstack),
    np.hstack: _stacklike(np.hstack), np.argsort: f_argsort, np.pad: f_pad, np.einsum: f_einsum,
    np.dot: _dotlike(np.dot), np.tensordot: _dotlike(np.tensordot), np.inner: _dotlike(np.inner),
    np.linalg.matrix_rank: f_matrix_rank, np.clip: f_clip,
    np.zeros_like: f_like(np.zeros), np.ones_like: f_like(np.ones), np.empty_like: f_like(np.zeros),
    np.full_like: f_like(np.full),
}


def _strip(x):
    if isinstance(x, SymND):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and any(isinstance(y, (SymND, list, tuple)) for y in x):
        return type(x)(_strip(y) for y in x)
    return x


def _first_cdt(x):
    if isinstance(x, SymND):
        return x._cdt
    if isinstance(x, (list, tuple)):
        for y in x:
            d = _first_cdt(y)
            if d is not None:
                return d
    return None


def _rewrap(r, dt):
    if isinstance(r, np.ndarray):
        return mk(r, dt) if r.dtype == object else r
    if isinstance(r, tuple):
        return tuple(_rewrap(x, dt) for x in r)
    if isinstance(r, list):
        return [_rewrap(x, dt) for x in r]
    return r


def _conv_index(key):
    if type(key) is tuple:
        return tuple(_conv_index(k) for k in key)
    if isinstance(key, SymND):
        return concretise(key)
    if type(key) is SymInt:
        return key.concretise()
    if type(key) is SymBool:
        return bool(key)
    if isinstance(key, slice):
        return slice(*(x.concretise() if type(x) is SymInt else x for x in (key.start, key.stop, key.step)))
    if type(key) is list and has_sym(key):
        return [_conv_index(k) for k in key]
    return key


class SymND(np.ndarray):
    _cdt = np.dtype(object)
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        if isinstance(obj, SymND):
            self._cdt = obj._cdt

    @property
    def dtype(self):
        return self._cdt

    @property
    def itemsize(self):
        return self._cdt.itemsize

    @property
    def nbytes(self):
        return self.size * self._cdt.itemsize

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method == '__call__':
            where = kw.pop('where', True)
            o = out[0] if out is not None else None
            if where is not True:
                raise core.EngineError('ufunc where=')
            dt = kw.pop('dtype', None)
            r = apply_ufunc(ufunc, list(inputs), o)
            if dt is not None and isinstance(r, SymND):
                r = r.astype(dt)
            return r
        if method == 'reduce':
            a = inputs[0]
            axis = kw.get('axis', 0)
            kd = kw.get('keepdims', False)
            f = {'add': f_sum, 'logical_or': f_any, 'logical_and': f_all, 'maximum': f_max, 'minimum': f_min,
                 'multiply': f_prod}.get(ufunc.__name__)
            if f is None:
                return ufunc.reduce(concretise(a), axis=axis, keepdims=kd)
            return f(a, axis=axis, keepdims=kd)
        if method == 'accumulate' and ufunc.__name__ in PYOPS:
            a = inputs[0]
            f = pyufunc(ufunc.__name__, 2)
            r = f.accumulate(_ob(a), axis=kw.get('axis', 0), dtype=object)
            return mk(r, result_dtype(ufunc, [a, a]))
        if method == 'outer' and ufunc.__name__ in PYOPS:
            a, b = asarray(inputs[0]), asarray(inputs[1])
            return apply_ufunc(ufunc, [a.reshape(a.shape + (1,) * b.ndim), b])
        return getattr(ufunc, method)(*[concretise(x) for x in inputs], **kw)

    def __array_function__(self, func, types, args, kwargs):
        f = OVERRIDES.get(func)
        if f is not None:
            return f(*args, **kwargs)
        dt = _first_cdt(args)
        args = _strip(tuple(args))
        kwargs = {k: _strip(v) for k, v in kwargs.items()}
        r = func(*args, **kwargs)
        return _rewrap(r, dt)

    def __getitem__(self, key):
        return super().__getitem__(_conv_index(key))

    def __setitem__(self, key, value):
        key = _conv_index(key)
        dt = self._cdt
        if isinstance(value, np.ndarray):
            value = wraparr(_ob(value), dt)
            np.ndarray.__setitem__(self.view(np.ndarray), key, value)
        elif isinstance(value, (list, tuple)):
            v = np.empty(len(value), dtype=object) if not any(isinstance(x, (list, tuple, np.ndarray)) for x in value) else None
            if v is None:
                v = _ob(asarray(value))
            else:
                for i, x in enumerate(value):
                    v[i] = x
            np.ndarray.__setitem__(self.view(np.ndarray), key, wraparr(v, dt))
        else:
            if isinstance(value, np.generic):
                value = value.item()
            np.ndarray.__setitem__(self.view(np.ndarray), key, _wrap1(value, dt) if dt != object else value)

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        return mk(wraparr(self.view(np.ndarray).copy(), dt), dt)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return f_any(self, axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return f_all(self, axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_sum(self, axis, dtype, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_prod(self, axis, dtype, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return f_max(self, axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return f_min(self, axis, keepdims=keepdims)

    def argmax(self, axis=None, out=None, keepdims=False):
        return f_argmax(self, axis, keepdims=keepdims)

    def argmin(self, axis=None, out=None, keepdims=False):
        return f_argmin(self, axis, keepdims=keepdims)

    def argsort(self, axis=-1, **k):
        return f_argsort(self, axis)

    def nonzero(self):
        return f_nonzero(self)

    def clip(self, *a, **k):
        return f_clip(self, *a, **k)

    def dot(self, o):
        return OVERRIDES[np.dot](self, o)

    def tobytes(self, *a, **k):
        return concretise(self).tobytes(*a, **k)

    @property
    def data(self):
        return memoryview(concretise(self))

    def __bool__(self):
        if self.size == 1:
            return bool(mkbool(truth(self.view(np.ndarray).reshape(-1)[0])))
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __int__(self):
        return int(self.view(np.ndarray).reshape(-1)[0]) if self.size == 1 else super().__int__()

    __index__ = __int__

    def __repr__(self):
        return f'<SymND {self.shape} {self._cdt}>'

    __str__ = __repr__

    def __reduce__(self):
        raise core.EngineError('pickle of symbolic array')


def create(a, dtype):
    """Concrete array -> SymND with the claimed dtype."""
    dt = np.dtype(dtype)
    return mk(wraparr(np.asarray(a).astype(object), dt), dt)


def _infer(o):
    kinds = set()
    for x in o.reshape(-1):
        t = type(x)
        if t is SymBool or t is bool or isinstance(x, np.bool_):
            kinds.add('b')
        elif t is SymInt or isinstance(x, (int, np.integer)):
            kinds.add('i')
        elif t is SymReal or isinstance(x, (float, Fraction)):
            kinds.add('f')
        else:
            return np.dtype(object)
    if 'f' in kinds:
        return np.dtype(np.float64)
    if 'i' in kinds:
        return np.dtype(np.int64)
    if 'b' in kinds:
        return np.dtype(bool)
    return np.dtype(np.float64)


def _deep_obj(x):
    """Nested lists -> object ndarray without numpy guessing."""
    if isinstance(x, SymND):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)) and type(x).__name__ != 'SymRow':
        parts = [_deep_obj(y) for y in x]
        if not parts:
            return np.empty((0,), dtype=object)
        if all(isinstance(p, np.ndarray) for p in parts):
            if len({p.shape for p in parts}) == 1:
                return np.stack(parts)
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        if any(isinstance(p, np.ndarray) for p in parts):
            raise ValueError('inhomogeneous array')
        o = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            o[i] = p
        return o
    return x


def asarray(x, dtype=None):
    if isinstance(x, SymND):
        return x if dtype is None or np.dtype(dtype) == x._cdt else x.astype(dtype)
    if isinstance(x, np.ndarray):
        if x.dtype == object and dtype is None:
            return mk(x, _infer(x))
        if x.dtype.kind in 'biuf':
            return create(x, dtype or x.dtype)
        return x
    o = _deep_obj(x)
    if not isinstance(o, np.ndarray):
        o = _obj0(o)
    if o.size and not all(isinstance(v, (int, float, bool, np.generic, Fraction)) for v in o.reshape(-1)):
        return np.asarray(x, dtype=dtype) if dtype is not None else np.array(x)
    flat_dt = None
    if isinstance(x, (list, tuple)) and x and all(isinstance(y, np.ndarray) for y in x):
        flat_dt = _dts(x)
    o = np.frompyfunc(lambda v: v.item() if isinstance(v, np.generic) else v, 1, 1)(o) if o.size else o
    if not isinstance(o, np.ndarray):
        o = _obj0(o)
    dt = np.dtype(dtype) if dtype is not None else (flat_dt or _infer(o))
    return mk(wraparr(o, dt), dt)


class NumpyShim:
    """Stands for the numpy module inside the instrumented sources."""
    def __init__(self):
        self.__dict__['linalg'] = np.linalg

    def __getattr__(self, name):
        f = getattr(np, name)
        if isinstance(f, np.ufunc):
            def g(*args, **k):
                if not any(isinstance(x, np.ndarray) for x in args) and any(issym(x) or isinstance(x, (list, tuple)) and has_sym(x) for x in args):
                    return apply_ufunc(f, list(args))
                return f(*args, **k)
            g.__getattr__ = lambda n: getattr(f, n)
            for n in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
                setattr(g, n, getattr(f, n))
            self.__dict__[name] = g
            return g
        return f

    @staticmethod
    def zeros(shape, dtype=float, order='C', **k):
        return create(np.zeros(_shape(shape)), dtype)

    @staticmethod
    def ones(shape, dtype=float, order='C', **k):
        return create(np.ones(_shape(shape)), dtype)

    @staticmethod
    def empty(shape, dtype=float, order='C', **k):
        return create(np.zeros(_shape(shape)), dtype)

    @staticmethod
    def full(shape, fill_value, dtype=None, order='C', **k):
        o = np.empty(_shape(shape), dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = fill_value
        dt = np.dtype(dtype) if dtype is not None else _infer(_obj0(fill_value).reshape(1))
        return mk(wraparr(o, dt), dt)

    @staticmethod
    def identity(n, dtype=float, **k):
        return create(np.identity(n), dtype)

    @staticmethod
    def eye(N, M=None, k=0, dtype=float, **kw):
        return create(np.eye(N, M, k), dtype)

    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        r = asarray(x, dtype)
        return r.copy() if r is x else r

    @staticmethod
    def asarray(x, dtype=None, **k):
        return asarray(x, dtype)

    @staticmethod
    def arange(*a, **k):
        r = np.arange(*a, **k)
        return r

    @staticmethod
    def any(a, *args, **k):
        return f_any(asarray(a), *args, **k)

    @staticmethod
    def all(a, *args, **k):
        return f_all(asarray(a), *args, **k)

    @staticmethod
    def where(c, *ab):
        if not ab:
            return f_nonzero(asarray(c))
        return f_where(asarray(c) if isinstance(c, (list, tuple, np.ndarray)) else c, *ab)

    @staticmethod
    def sum(a, *args, **k):
        return f_sum(asarray(a), *args, **k)

    @staticmethod
    def max(a, *args, **k):
        return f_max(asarray(a), *args, **k)

    @staticmethod
    def min(a, *args, **k):
        return f_min(asarray(a), *args, **k)

    amax = max
    amin = min

    @staticmethod
    def argmax(a, *args, **k):
        return f_argmax(asarray(a), *args, **k)

    @staticmethod
    def argmin(a, *args, **k):
        return f_argmin(asarray(a), *args, **k)

    @staticmethod
    def count_nonzero(a, *args, **k):
        return f_count_nonzero(asarray(a), *args, **k)

    @staticmethod
    def nonzero(a):
        return f_nonzero(asarray(a))

    @staticmethod
    def array_equal(a, b, **k):
        return f_array_equal(a, b)

    @staticmethod
    def concatenate(arrs, axis=0, **k):
        return f_concatenate(list(arrs), axis=axis, **k)

    @staticmethod
    def stack(arrs, *a, **k):
        return OVERRIDES[np.stack](list(arrs), *a, **k)

    @staticmethod
    def argsort(a, axis=-1, **k):
        return f_argsort(asarray(a), axis)

    @staticmethod
    def ndindex(*shape):
        return np.ndindex(*shape)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(x) for x in s)
    return operator.index(s)


SHIM = NumpyShim()


def pandas_shim(pd):
    """Stands for the pandas module: tables of symbolic columns hold objects."""
    def conv(x):
        if isinstance(x, SymND):
            p = x.view(np.ndarray)
            return p.copy() if has_sym(list(p.reshape(-1))) else np.array(p.tolist(), dtype=x._cdt).reshape(p.shape)
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)) and type(x) in (list, tuple) and any(isinstance(y, SymND) for y in x):
            return type(x)(conv(y) for y in x)
        return x

    class DataFrame(pd.DataFrame):
        def __new__(cls, data=None, *a, **k):
            return pd.DataFrame(conv(data), *a, **k)

        @classmethod
        def from_dict(cls, data, *a, **k):
            return pd.DataFrame.from_dict(conv(data), *a, **k)

    class Pandas:
        def __getattr__(self, name):
            return getattr(pd, name)
    r = Pandas()
    r.DataFrame = DataFrame
    return r
