"""The mutable state of the package's modules: taken once after import, put back
before every path, so that what one path leaves behind is not seen by the next
(a replay sees a fresh process, too)."""
import collections
import itertools
import types

SCALAR = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis), types.ModuleType,
          types.BuiltinFunctionType)


SKIP = ("typing", "dataclasses", "importlib._bootstrap", "_frozen_importlib", "abc", "enum")


def dunder(k):
    return isinstance(k, str) and k.startswith("__") and k.endswith("__")


class State:
    def __init__(self, modules):
        self.names = {m.__name__ for m in modules}
        self.seen = {}
        self.attrs = []        # (dict, keys, ids, copy)
        self.classes = []      # (class, copy of vars)
        self.lists = []        # (object, copy)
        self.funcs = []        # (function, defaults, kwdefaults)
        self.fdicts = []
        self.cells = []        # (cell, contents)
        self.caches = []
        self.counts = []       # (dict, key, copy of the count)
        self.budget = 20000
        for m in modules:
            self._dict(m.__dict__)

    def _dict(self, d):
        self.attrs.append((d, list(d), list(map(id, d.values())), dict(d)))
        for k, v in list(d.items()):
            if type(v) is itertools.count:
                self.counts.append((d, k, v.__reduce__()))
            if not dunder(k):
                self._walk(v)

    def _walk(self, v):
        t = type(v)
        if t in SCALAR or id(v) in self.seen or self.budget <= 0 or t.__module__ in SKIP:
            return
        self.budget -= 1
        self.seen[id(v)] = v
        if isinstance(v, type):
            if getattr(v, "__module__", None) in self.names:
                self.classes.append((v, dict(vars(v)), list(map(id, vars(v).values()))))
                for k, x in list(vars(v).items()):
                    if not dunder(k) or type(x) is types.FunctionType:
                        self._walk(x)
        elif t is types.FunctionType:
            if v.__module__ in self.names:
                self.funcs.append((v, v.__defaults__, v.__kwdefaults__))
                for x in (v.__defaults__ or ()):
                    self._walk(x)
                for x in (v.__kwdefaults__ or {}).values():
                    self._walk(x)
                for c in v.__closure__ or ():
                    try:
                        x = c.cell_contents
                    except ValueError:
                        continue
                    self.cells.append((c, x))
                    self._walk(x)
                self.fdicts.append((v.__dict__, dict(v.__dict__)))
                for x in v.__dict__.values():
                    self._walk(x)
        elif t in (staticmethod, classmethod):
            self._walk(v.__func__)
        elif t is property:
            for x in (v.fget, v.fset, v.fdel):
                self._walk(x)
        elif hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
            self.caches.append(v)
            self._walk(getattr(v, "__wrapped__", None))
        elif isinstance(v, dict):
            self._dict(v)
        elif isinstance(v, (list, set, collections.deque, bytearray)):
            self.lists.append((v, t(v) if t in (list, set, bytearray) else v.copy()))
            if not isinstance(v, bytearray):
                for x in list(v):
                    self._walk(x)
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                self._walk(x)
        elif isinstance(getattr(v, "__dict__", None), dict):
            self._dict(v.__dict__)
        for c in type(v).__mro__ if type(v).__module__ in self.names else ():
            sl = c.__dict__.get("__slots__", ())
            for n in (sl,) if isinstance(sl, str) else sl:
                if hasattr(v, n):
                    x = getattr(v, n)
                    self.cells.append(((v, n), x))
                    self._walk(x)

    def restore(self):
        for d, ks, ids, copy in self.attrs:
            if len(d) != len(ks) or list(map(id, d.values())) != ids or list(d) != ks:
                dict.clear(d)
                dict.update(d, copy)
        for d, copy in self.fdicts:
            if (d or copy) and (len(d) != len(copy) or any(d.get(k, self) is not v for k, v in copy.items())):
                d.clear()
                d.update(copy)
        for d, k, r in self.counts:
            c = r[0](*r[1])
            d[k] = c
            for i, (dd, ks, ids, copy) in enumerate(self.attrs):
                if dd is d:
                    copy[k] = c
                    ids[ks.index(k)] = id(c)
        for c, vs, ids in self.classes:
            now = vars(c)
            if len(now) != len(vs) or list(map(id, now.values())) != ids:
                for k in list(now):
                    if k not in vs and not (k.startswith("__") and k.endswith("__")):
                        delattr(c, k)
                for k, v in vs.items():
                    if now.get(k) is not v and not (k.startswith("__") and k.endswith("__")):
                        setattr(c, k, v)
        for x, copy in self.lists:
            if type(x) is set or isinstance(x, set):
                if len(x) != len(copy) or set(map(id, x)) != set(map(id, copy)):
                    x.clear()
                    x.update(copy)
            elif len(x) != len(copy) or any(a is not b for a, b in zip(x, copy)):
                if isinstance(x, collections.deque):
                    x.clear()
                    x.extend(copy)
                else:
                    x[:] = copy
        for f, a, b in self.funcs:
            if f.__defaults__ is not a:
                f.__defaults__ = a
            if f.__kwdefaults__ is not b:
                f.__kwdefaults__ = b
        for c, v in self.cells:
            if type(c) is tuple:
                if getattr(c[0], c[1], self) is not v:
                    object.__setattr__(c[0], c[1], v)
            else:
                try:
                    if c.cell_contents is v:
                        continue
                except ValueError:
                    pass
                c.cell_contents = v
        for f in self.caches:
            f.cache_clear()
