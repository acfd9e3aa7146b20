"""
Instrumented import of the package under test: the sources are read from the repository on every run, their syntax
trees rewritten so that subscripts, comparisons and a few builtins go through symbolic-aware helpers, and executed.
"""
import ast
import builtins
import functools
import importlib.abc
import importlib.util
import os
import sys
from fractions import Fraction

from . import core, nd
from .values import (SymBool, SymInt, SymReal, SymRow, blit, contains, dict_get, has_sym, issym, merge, Unmergeable,
                     mkbool, select, sym_eq, sym_not, merge_or_fork, index_fin, toreal, TOKEN_BASE)


class H:
    """Run-time helpers, visible in instrumented modules as __sx__."""

    @staticmethod
    def getitem(a, b):
        tb = type(b)
        if tb is int or tb is str:
            return a[b]
        if tb is SymInt or tb is SymBool:
            ta = type(a)
            if ta is list or ta is tuple:
                return select(a, b)
            if ta is SymRow:
                return a[b]
            if isinstance(a, dict) and ta is not SymRow:
                return dict_get(a, b)
            return a[b]
        if isinstance(a, dict) and type(a) is not SymRow and has_sym(b):
            return dict_get(a, b)
        return a[b]

    @staticmethod
    def setitem(a, b, v):
        if type(a) is list and core.cur is not None:
            core.cur.frozen.pop(id(a), None)
            if type(b) is SymInt:
                g = index_fin(b, len(a))
                if len(g) == 1:
                    a[g[0][1]] = v
                    return
                try:
                    new = [(j, merge([(l, v), (-l, a[j])])) for l, j in g]
                except Unmergeable:
                    a[b] = v
                    return
                for j, x in new:
                    a[j] = x
                return
        a[b] = v

    @staticmethod
    def augitem(a, b, op, v):
        # a[b] op= v  (in-place operator functions from the operator module)
        H.setitem(a, b, op(H.getitem(a, b), v))

    @staticmethod
    def eq(a, b):
        ta, tb = type(a), type(b)
        if ta is int and tb is int or ta is str:
            return a == b
        if has_sym(a) or has_sym(b):
            return sym_eq(a, b)
        return a == b

    @staticmethod
    def ne(a, b):
        ta, tb = type(a), type(b)
        if ta is int and tb is int or ta is str:
            return a != b
        if has_sym(a) or has_sym(b):
            return sym_not(sym_eq(a, b))
        return a != b

    @staticmethod
    def not_(x):
        if type(x) is SymBool or type(x) is SymInt:
            return sym_not(x)
        return not x

    @staticmethod
    def contains(c, x):
        return contains(c, x)

    @staticmethod
    def ncontains(c, x):
        return sym_not(contains(c, x))

    @staticmethod
    def ifexp(c, fa, fb):
        if type(c) is SymBool:
            k = core.cur.lit_known(c.l)
            if k is None:
                a, b = fa(), fb()
                if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                    try:
                        return merge([(c.l, a), (-c.l, b)])
                    except Unmergeable:
                        pass
                return a if c else b
            return fa() if k else fb()
        return fa() if c else fb()

    @staticmethod
    def bcall(fn, *args, **kw):
        """Call of a name that usually denotes a builtin."""
        if fn is builtins.min or fn is builtins.max:
            return _minmax(fn, *args, **kw)
        if fn is builtins.int:
            if len(args) == 1 and not kw:
                x = args[0]
                if type(x) is SymInt:
                    return x
                if type(x) is SymBool:
                    return x.asint()
                if type(x) is str and core.cur is not None:
                    return untoken(int(x))
            return fn(*args, **kw)
        if fn is builtins.enumerate:
            start = kw.get('start', args[1] if len(args) > 1 else 0)
            if issym(start):
                return ((start + i, x) for i, x in builtins.enumerate(args[0]))
            return fn(*args, **kw)
        if fn is builtins.float:
            if len(args) == 1 and issym(args[0]):
                return toreal(args[0])
            return fn(*args, **kw)
        if fn is builtins.sorted:
            items = list(args[0])
            key = kw.get('key')
            keys = items if key is None else [key(x) for x in items]
            if len(items) <= 16 and has_sym(keys) and all(isinstance(x, int) for x in keys):
                return _sort(items, keys, kw.get('reverse', False))
            return fn(items, **kw)
        return fn(*args, **kw)

    @staticmethod
    def npattr(a, name):
        """Attribute that numpy scalars have and Python's numbers do not."""
        if type(a) in NUMBERS and not hasattr(a, name):
            return getattr(nd.scalar0(a), name)
        return getattr(a, name)

    @staticmethod
    def strmod(a, b):
        """%-formatting of symbolic integers."""
        if core.cur is not None and has_sym(b):
            tok = lambda x: int(str(x)) if type(x) is SymInt else tuple(map(tok, x)) if type(x) is tuple else x
            return a % tok(b)
        return a % b

    @staticmethod
    def getter(a):
        """a.__getitem__ of a sequence"""
        if type(a) in (list, tuple):
            return lambda b: H.getitem(a, b)
        return a.__getitem__

    @staticmethod
    def sorter(a):
        """a.sort of a list"""
        if type(a) is not list:
            return a.sort

        def sort(*, key=None, reverse=False):
            a[:] = H.bcall(builtins.sorted, a, key=key, reverse=reverse)
        return sort

    @staticmethod
    def cache(f):
        return CacheShim(f)

    @staticmethod
    def lru_cache(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return CacheShim(a[0])
        return lambda f: CacheShim(f)

    @staticmethod
    def literal_eval(s):
        import ast as _ast
        return untoken(_ast.literal_eval(s))


def untoken(x):
    """Replace token numerals produced by printing symbolic integers."""
    if type(x) is int:
        if core.cur is not None and abs(x) >= TOKEN_BASE:
            t = core.cur.tokens.get(abs(x))
            if t is not None:
                return t if x > 0 else -t
        return x
    if type(x) is tuple:
        return tuple(untoken(y) for y in x)
    if type(x) is list:
        return [untoken(y) for y in x]
    if type(x) is dict:
        return {untoken(k): untoken(v) for k, v in x.items()}
    return x


def _minmax(fn, *args, **kw):
    if len(args) == 1:
        items = list(args[0])
        if not has_sym(items) or kw.get('key') is not None:
            return fn(items, **kw)
        if not items:
            if 'default' in kw:
                return kw['default']
            return fn(items)
    else:
        items = list(args)
        if not has_sym(items) or kw.get('key') is not None:
            return fn(*items, **kw)
    if not all(isinstance(x, (int, float)) for x in items):
        return fn(items, **kw)
    r = items[0]
    for x in items[1:]:
        c = (x < r) if fn is builtins.min else (x > r)
        if type(c) is SymBool:
            try:
                r = merge([(c.l, x), (-c.l, r)])
            except Unmergeable:
                r = x if c else r
        elif c:
            r = x
    return r


def _sort(items, keys, reverse):
    """Stable insertion network of compare-and-exchange steps."""
    same = keys is items
    a, k = list(items), list(keys)
    for i in range(1, len(a)):
        for j in range(i, 0, -1):
            c = k[j] > k[j - 1] if reverse else k[j] < k[j - 1]
            if type(c) is SymBool:
                try:
                    x, y = merge([(c.l, a[j]), (-c.l, a[j - 1])]), merge([(c.l, a[j - 1]), (-c.l, a[j])])
                    k[j - 1], k[j] = (x, y) if same else (merge([(c.l, k[j]), (-c.l, k[j - 1])]), merge([(c.l, k[j - 1]), (-c.l, k[j])]))
                    a[j - 1], a[j] = x, y
                    continue
                except Unmergeable:
                    c = bool(c)
            if not c:
                break
            a[j - 1], a[j] = a[j], a[j - 1]
            k[j - 1], k[j] = k[j], k[j - 1]
    return a


NUMBERS = (int, bool, float, Fraction, SymInt, SymBool, SymReal)
NPATTRS = {'max', 'min', 'sum', 'any', 'all', 'astype', 'item', 'reshape', 'shape', 'ndim', 'dtype', 'tolist', 'copy', 'prod',
           'argmax', 'argmin', 'flatten', 'ravel', 'size', 'T', 'clip', 'squeeze', 'nonzero', 'mean', 'round'}


class CacheShim:
    """functools.cache that never stores results of calls with symbolic arguments or symbolic results."""
    def __init__(self, f):
        self.f = f
        self.local = {}
        self.state = None
        try:
            functools.update_wrapper(self, f)
        except AttributeError:
            pass
        self.__wrapped__ = f

    def _call(self, *a, **k):
        return self.f(*a, **k)

    def __call__(self, *a, **k):
        if core.cur is not None:
            if has_sym(a) or has_sym(tuple(k.values())):
                return self.f(*a, **k)
            key = (a, tuple(sorted(k.items())))
            try:
                if key in self.local:
                    return self.local[key]
            except TypeError:
                return self.f(*a, **k)
            r = self.f(*a, **k)
            if not deep_sym(r):
                self.local[key] = r
                if self.state is not None:
                    self.state.walk(r)
            return r
        return self.f(*a, **k) if not self._hashable(a, k) else self._store(a, k)

    def _hashable(self, a, k):
        try:
            hash((a, tuple(sorted(k.items()))))
            return True
        except TypeError:
            return False

    def _store(self, a, k):
        key = (a, tuple(sorted(k.items())))
        if key not in self.local:
            self.local[key] = self.f(*a, **k)
        return self.local[key]

    def cache_clear(self):
        self.local.clear()

    def cache_info(self):
        return (0, 0, None, len(self.local))

    def __get__(self, obj, objtype=None):
        if obj is None:
            return self
        return functools.partial(self, obj)


def deep_sym(x):
    import numpy as np
    if isinstance(x, nd.SymND):
        return any(issym(y) for y in x.view(np.ndarray).reshape(-1))
    t = type(x)
    if t in (list, tuple):
        return any(deep_sym(y) for y in x)
    if t is dict:
        return any(deep_sym(v) for v in x.values()) or any(deep_sym(k) for k in x)
    if t.__name__ in ('PermTable', 'NParTable'):
        return False
    return has_sym(x)


CALLED = set()
BUILTINS = {'min', 'max', 'int', 'float', 'enumerate', 'sorted'}
AUG = {ast.Add: 'iadd', ast.Sub: 'isub', ast.Mult: 'imul', ast.Mod: 'imod', ast.FloorDiv: 'ifloordiv', ast.BitOr: 'ior',
       ast.BitAnd: 'iand', ast.BitXor: 'ixor', ast.Div: 'itruediv', ast.Pow: 'ipow', ast.LShift: 'ilshift',
       ast.RShift: 'irshift', ast.MatMult: 'imatmul'}


def _simple(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
        return _simple(n.operand)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
        return _simple(n.left) and _simple(n.right)
    return False


class Tr(ast.NodeTransformer):
    def __init__(self, modname=''):
        self.n = 0
        self.modname = modname
        self.stack = []

    def sx(self, name):
        return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())

    def call(self, name, *args):
        return ast.Call(self.sx(name), list(args), [])

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(ast.Attribute(ast.Name('__sx_builtins__', ast.Load()), 'slice', ast.Load()),
                            [none(s.lower), none(s.upper), none(s.step)], [])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        node.target = self.visit(node.target) if not isinstance(node.target, ast.Subscript) else node.target
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        self.stack.append(node.name)
        node.body = self._body(node.body)
        if self.modname:
            name = self.modname + '.' + '.'.join(self.stack)
            mark = ast.Expr(ast.Call(ast.Name('__sx_seen__', ast.Load()), [ast.Constant(name)], []))
            doc = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(doc, mark)
        self.stack.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.append(node.name)
        node.body = self._body(node.body)
        self.stack.pop()
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.call('getitem', node.value, self._slice(node.slice)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.Eq):
                return ast.copy_location(self.call('eq', l, r), node)
            if isinstance(op, ast.NotEq):
                return ast.copy_location(self.call('ne', l, r), node)
            if isinstance(op, ast.In):
                return ast.copy_location(self._in('contains', l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(self._in('ncontains', l, r), node)
        return node

    def _in(self, fn, item, cont):
        # preserve evaluation order: item first
        lam = ast.Lambda(ast.arguments([], [ast.arg('__i'), ast.arg('__c')], None, [], [], None, []),
                         self.call(fn, ast.Name('__c', ast.Load()), ast.Name('__i', ast.Load())))
        return ast.Call(lam, [item, cont], [])

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(self.call('not_', node.operand), node)
        return node

    def visit_IfExp(self, node):
        simple = _simple(node.body) and _simple(node.orelse)
        self.generic_visit(node)
        if simple:
            lam = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
            return ast.copy_location(self.call('ifexp', node.test, lam(node.body), lam(node.orelse)), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Name) and isinstance(node.ctx, ast.Load):
            if node.value.id == 'functools' and node.attr in ('cache', 'lru_cache'):
                return ast.copy_location(self.sx(node.attr), node)
            if node.value.id == 'ast' and node.attr == 'literal_eval':
                return ast.copy_location(self.sx('literal_eval'), node)
        if isinstance(node.ctx, ast.Load) and node.attr in ('__getitem__', 'sort'):
            return ast.copy_location(self.call('getter' if node.attr != 'sort' else 'sorter', node.value), node)
        if isinstance(node.ctx, ast.Load) and node.attr in NPATTRS:
            return ast.copy_location(self.call('npattr', node.value, ast.Constant(node.attr)), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (isinstance(node.left, ast.JoinedStr) or isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return ast.copy_location(self.call('strmod', node.left, node.right), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in BUILTINS:
            return ast.copy_location(ast.Call(self.sx('bcall'), [node.func] + node.args, node.keywords), node)
        return node

    def tmp(self):
        self.n += 1
        return f'__sx_t{self.n}'

    def _has_sub(self, t):
        if isinstance(t, ast.Subscript):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self._has_sub(e) for e in t.elts)
        if isinstance(t, ast.Starred):
            return self._has_sub(t.value)
        return False

    def _store(self, target, out):
        """Replace subscripts in an assignment target by temporaries, appending setitem calls to out."""
        if isinstance(target, ast.Subscript):
            v = self.visit(target.value)
            s = self._slice(self.visit(target.slice))
            t = self.tmp()
            out.append(ast.Expr(self.call('setitem', v, s, ast.Name(t, ast.Load()))))
            return ast.Name(t, ast.Store())
        if isinstance(target, (ast.Tuple, ast.List)):
            return ast.Tuple([self._store(e, out) for e in target.elts], ast.Store())
        if isinstance(target, ast.Starred):
            return ast.Starred(self._store(target.value, out), ast.Store())
        if isinstance(target, ast.Attribute):
            target.value = self.visit(target.value)
            if not out:
                return target
            t = self.tmp()
            out.append(ast.Assign([target], ast.Name(t, ast.Load())))
            return ast.Name(t, ast.Store())
        return target

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if not any(self._has_sub(t) for t in node.targets):
            for t in node.targets:
                self.generic_visit(t)
            return node
        if len(node.targets) == 1:
            out = []
            t = self._store(node.targets[0], out)
            first = ast.Assign([t], node.value)
            res = [first] + out
        else:
            name = self.tmp()
            res = [ast.Assign([ast.Name(name, ast.Store())], node.value)]
            for tg in node.targets:
                out = []
                t = self._store(tg, out)
                res.append(ast.Assign([t], ast.Name(name, ast.Load())))
                res.extend(out)
        return [ast.copy_location(r, node) for r in res]

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            v = self.visit(node.target.value)
            s = self._slice(self.visit(node.target.slice))
            op = ast.Attribute(ast.Name('__sx_operator__', ast.Load()), AUG[type(node.op)], ast.Load())
            return ast.copy_location(ast.Expr(self.call('augitem', v, s, op, node.value)), node)
        self.generic_visit(node.target)
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        pre = []
        if self._has_sub(node.target):
            out = []
            node.target = self._store(node.target, out)
            pre = out
        node.body = pre + self._body(node.body)
        node.orelse = self._body(node.orelse)
        return node


def transform(src, filename, modname=''):
    tree = ast.parse(src, filename)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path, modname, is_pkg):
        self.path, self.modname, self.is_pkg = path, modname, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        import operator
        with open(self.path, encoding='utf-8') as fh:
            src = fh.read()
        code = transform(src, self.path, '' if self.modname.startswith('harness') else self.modname)
        module.__dict__['__sx_seen__'] = CALLED.add
        module.__dict__['__sx__'] = H
        module.__dict__['__sx_operator__'] = operator
        module.__dict__['__sx_builtins__'] = builtins
        c, l = functools.cache, functools.lru_cache
        functools.cache, functools.lru_cache = H.cache, H.lru_cache
        try:
            exec(code, module.__dict__)
        finally:
            functools.cache, functools.lru_cache = c, l
        import numpy
        for k, v in list(module.__dict__.items()):
            if v is numpy:
                module.__dict__[k] = nd.SHIM
            elif getattr(v, '__name__', '') == 'pandas' and type(v) is type(numpy):
                module.__dict__[k] = nd.pandas_shim(v)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, package):
        self.repo, self.package = repo, package

    def find_spec(self, name, path=None, target=None):
        if name != self.package and not name.startswith(self.package + '.'):
            return None
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            spec = importlib.util.spec_from_file_location(name, f, loader=Loader(f, name, True),
                                                          submodule_search_locations=[p])
            return spec
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, name, False))
        return None


def install(repo, package='peyl'):
    sys.meta_path.insert(0, Finder(repo, package))
