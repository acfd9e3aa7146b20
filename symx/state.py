"""
Mutable state of the package under test: recorded before the first path, put back before every path, so that every
symbolic path starts from the freshly imported package (module-level tables, class attributes, default arguments,
closures, and values held by functools caches).
"""
import collections
import sys
import types

import numpy as np

from . import instrument

LEAVES = (int, float, complex, str, bytes, bool, type(None), range, slice)


class State:
    def __init__(self, package='peyl'):
        self.package = package
        self.seen = {}
        self.records = []
        self.shims = []
        mods = [m for k, m in list(sys.modules.items()) if k == package or k.startswith(package + '.')]
        for m in mods:
            self.walk(m)
        self.base = len(self.records)

    def mine(self, x):
        n = getattr(x, '__module__', None)
        return isinstance(n, str) and (n == self.package or n.startswith(self.package + '.'))

    def walk(self, root):
        todo = [root]
        seen, rec = self.seen, self.records
        while todo:
            x = todo.pop()
            t = type(x)
            if t in LEAVES or id(x) in seen:
                continue
            if t is types.ModuleType:
                if x.__name__ != self.package and not x.__name__.startswith(self.package + '.'):
                    continue
                seen[id(x)] = x
                d = x.__dict__
                rec.append(('module', d, dict(d)))
                todo.extend(v for k, v in d.items() if not k.startswith('__'))
            elif t is instrument.CacheShim:
                seen[id(x)] = x
                self.shims.append((x, dict(x.local)))
                x.state = self
                todo.extend(x.local.values())
                todo.append(x.f)
            elif isinstance(x, dict):
                seen[id(x)] = x
                rec.append(('dict', x, dict(x)))
                todo.extend(x.values())
            elif isinstance(x, (list, collections.deque)):
                seen[id(x)] = x
                rec.append(('list', x, list(x)))
                todo.extend(x)
            elif t is tuple or t is frozenset:
                todo.extend(x)
            elif isinstance(x, set):
                seen[id(x)] = x
                rec.append(('set', x, set(x)))
            elif isinstance(x, np.ndarray):
                seen[id(x)] = x
                if x.flags.writeable and x.size <= 100000:
                    rec.append(('array', x, x.copy()))
                if x.dtype == object:
                    todo.extend(x.view(np.ndarray).reshape(-1).tolist())
            elif isinstance(x, type):
                if not self.mine(x):
                    continue
                seen[id(x)] = x
                d = {k: v for k, v in vars(x).items() if k not in ('__dict__', '__weakref__', '__doc__')}
                rec.append(('class', x, d))
                todo.extend(d.values())
            elif isinstance(x, (staticmethod, classmethod)):
                todo.append(x.__func__)
            elif isinstance(x, property):
                todo.extend(f for f in (x.fget, x.fset, x.fdel) if f is not None)
            elif isinstance(x, types.MethodType):
                todo.append(x.__func__)
            elif isinstance(x, types.FunctionType):
                if not self.mine(x):
                    continue
                seen[id(x)] = x
                rec.append(('dict', x.__dict__, dict(x.__dict__)))
                todo.extend(x.__dict__.values())
                todo.extend(x.__defaults__ or ())
                todo.extend((x.__kwdefaults__ or {}).values())
                for c in x.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    if id(c) not in seen:
                        seen[id(c)] = c
                        rec.append(('cell', c, v))
                        todo.append(v)
            elif self.mine(t):
                seen[id(x)] = x
                d = getattr(x, '__dict__', None)
                if type(d) is dict:
                    rec.append(('dict', d, dict(d)))
                    todo.extend(d.values())
                slots = {}
                for c in t.__mro__:
                    s = c.__dict__.get('__slots__', ())
                    for k in ((s,) if isinstance(s, str) else s):
                        if k not in ('__dict__', '__weakref__') and hasattr(x, k):
                            slots[k] = getattr(x, k)
                if slots:
                    rec.append(('slots', x, slots))
                    todo.extend(slots.values())

    def restore(self, clear=False):
        if clear:
            del self.records[self.base:]
            for s, old in self.shims:
                if len(s.local) != len(old):
                    s.local.clear()
                    s.local.update(old)
        else:
            # iterators are used up by the path that gets them
            for s, old in self.shims:
                for k in [k for k, v in s.local.items() if hasattr(v, '__next__')]:
                    if k not in old:
                        del s.local[k]
        for kind, x, old in self.records:
            if kind == 'dict':
                if x or old:
                    x.clear()
                    x.update(old)
            elif kind == 'list':
                if isinstance(x, list):
                    x[:] = old
                else:
                    x.clear()
                    x.extend(old)
            elif kind == 'set':
                if x != old:
                    x.clear()
                    x.update(old)
            elif kind == 'array':
                if x.shape == old.shape:
                    np.copyto(x.view(np.ndarray), old.view(np.ndarray))
            elif kind == 'cell':
                x.cell_contents = old
            elif kind == 'module':
                for k in [k for k in x if k not in old]:
                    if not isinstance(x[k], types.ModuleType):
                        del x[k]
                for k, v in old.items():
                    if x.get(k) is not v:
                        x[k] = v
            elif kind == 'class':
                cur = vars(x)
                for k in [k for k in cur if k not in old and k not in ('__dict__', '__weakref__', '__doc__')]:
                    type.__delattr__(x, k)
                for k, v in old.items():
                    if cur.get(k) is not v:
                        try:
                            type.__setattr__(x, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif kind == 'slots':
                for k, v in old.items():
                    if getattr(x, k, None) is not v:
                        object.__setattr__(x, k, v)
