"""Snapshot and restore of the module-level state of a package between paths."""
from __future__ import annotations

import collections
import types

from .hooks import SymCache
from .lazy import XDict, XSet


class Snapshot:
    def __init__(self, modules, prefix):
        self.prefix = prefix
        self.saved = []   # (restore function args)
        self.caches = []
        self.seen = set()
        self.keep = []
        for m in modules:
            self._module(m)

    def _module(self, m):
        d = m.__dict__
        self.saved.append((0, d, dict(d)))
        for k, v in list(d.items()):
            if not k.startswith("se_h_") and k != "__builtins__":
                self._walk(v)

    def _mine(self, cls):
        return getattr(cls, "__module__", "").split(".")[0] == self.prefix

    def _walk(self, v):
        t = type(v)
        if t in (str, int, float, bool, type(None), types.ModuleType):
            return
        if id(v) in self.seen:
            return
        self.seen.add(id(v))
        self.keep.append(v)
        if t is dict or t is collections.OrderedDict or t is collections.defaultdict:
            self.saved.append((0, v, dict(v)))
            for x in list(v.values()):
                self._walk(x)
        elif t is list or t is collections.deque:
            self.saved.append((1, v, list(v)))
            for x in v:
                self._walk(x)
        elif t is set:
            self.saved.append((2, v, set(v)))
        elif t is XDict:
            self.saved.append((3, v, (dict(v._d), v._ns)))
            for x in v.values():
                self._walk(x)
        elif t is XSet:
            self.saved.append((4, v, v.copy()))
        elif t is tuple:
            for x in v:
                self._walk(x)
        elif isinstance(v, type):
            if not self._mine(v):
                return
            attrs = {k: x for k, x in vars(v).items()
                     if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "__slots__", "_abc_impl")
                     and not isinstance(x, (types.GetSetDescriptorType, types.MemberDescriptorType))}
            self.saved.append((5, v, attrs))
            for x in attrs.values():
                self._walk(x)
        elif t is types.FunctionType:
            if v.__defaults__:
                for x in v.__defaults__:
                    self._walk(x)
            if v.__kwdefaults__:
                for x in v.__kwdefaults__.values():
                    self._walk(x)
            if v.__closure__:
                for c in v.__closure__:
                    try:
                        self._walk(c.cell_contents)
                    except ValueError:
                        pass
            if v.__dict__:
                self.saved.append((0, v.__dict__, dict(v.__dict__)))
        elif t in (staticmethod, classmethod):
            self._walk(v.__func__)
        elif t is property:
            for x in (v.fget, v.fset):
                if x is not None:
                    self._walk(x)
        elif t is types.MethodType:
            self._walk(v.__self__)
        elif isinstance(v, SymCache):
            self.caches.append(v)
            self._walk(v.f)
        elif hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
            self.caches.append(v)
        elif self._mine(t):
            if hasattr(v, "__dict__"):
                self.saved.append((0, v.__dict__, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    self._walk(x)
            for c in t.__mro__:
                sl = c.__dict__.get("__slots__", ())
                for s in (sl,) if isinstance(sl, str) else sl:
                    if s not in ("__dict__", "__weakref__") and hasattr(v, s):
                        x = getattr(v, s)
                        self.saved.append((6, v, (s, x)))
                        self._walk(x)

    def restore(self):
        for c in self.caches:
            c.cache_clear()
        for kind, obj, val in self.saved:
            if kind == 0:
                if not _same(obj, val):
                    obj.clear()
                    obj.update(val)
            elif kind == 1:
                if len(obj) != len(val) or any(a is not b for a, b in zip(obj, val)):
                    obj.clear()
                    obj.extend(val)
            elif kind == 2:
                if obj != val:
                    obj.clear()
                    obj.update(val)
            elif kind == 3:
                if not _same(obj._d, val[0]):
                    obj._d = dict(val[0])
                    obj._ns = val[1]
            elif kind == 4:
                obj._x = val.copy()._x
            elif kind == 5:
                cur = vars(obj)
                for k, x in val.items():
                    if cur.get(k, obj) is not x:
                        setattr(obj, k, x)
                if len(cur) > len(val) + 6:
                    for k in list(cur):
                        if k not in val and not k.startswith("__") and k != "_abc_impl" and not isinstance(
                                cur[k], (types.GetSetDescriptorType, types.MemberDescriptorType)):
                            delattr(obj, k)
            else:
                s, x = val
                if getattr(obj, s, None) is not x:
                    object.__setattr__(obj, s, x)


def _same(a, b):
    if len(a) != len(b):
        return False
    for k, v in b.items():
        if a.get(k, a) is not v:
            return False
    return True
