"""Run-time hooks called by instrumented code, and models of the standard
library functions the code under test hands symbolic values to."""
from __future__ import annotations

import builtins
import codecs
import collections
import copy
import functools
import io
import itertools
import json
import operator
import re
import sys
import types
import urllib.parse

from . import lazy as L
from . import rx
from . import terms as T
from . import values as V
from .chars import in_pred
from .engine import ENG, Cut
from .lazy import LazyJSON, XDict, XSet, XView
from .values import (Sym, SymBool, SymBytes, SymFloat, SymInt, SymStr, bt,
                     mkbool, mkint, mkstr, realize)

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
CMethodType = type(re.compile("x").finditer)
MethodWrapper = type("".__str__)
MethodDescriptor = type(str.join)
WrapperDescriptor = type(object.__init__)
ClassMethodDescriptor = type(dict.__dict__["fromkeys"])

SYMT = {SymBool, SymInt, SymFloat, SymStr, SymBytes, LazyJSON, XDict, XSet, XView, V._Utf16, rx.SymMatch, rx.SymPattern}
_CONT = (list, tuple, dict, set, frozenset, slice)


def is_sym(x, depth=2):
    t = type(x)
    if t in SYMT:
        if t is XDict:
            return True
        return True
    if depth and t in (list, tuple):
        for y in x:
            if is_sym(y, depth - 1):
                return True
        return False
    if t is slice:
        return is_sym(x.start, 0) or is_sym(x.stop, 0) or is_sym(x.step, 0)
    if depth and t is dict:
        for k, y in x.items():
            if is_sym(k, 0) or is_sym(y, depth - 1):
                return True
    return False


def any_sym(a, k):
    for x in a:
        if is_sym(x):
            return True
    for x in k.values():
        if is_sym(x):
            return True
    return False


# ---------------------------------------------------------------- is/in/compare


def unlazy(x):
    return x._deref() if type(x) is LazyJSON else x


def cmp_is(a, b):
    if a is b:
        return True
    la, lb = type(a) is LazyJSON, type(b) is LazyJSON
    if la or lb:
        if not la:
            a, b, la, lb = b, a, lb, la
        if not a._done and not lb:
            if b is None:
                return ENG.branch(a._kind_in((0,)))
            if b is True:
                return ENG.branch(a._kind_in((1,)))
            if b is False:
                return ENG.branch(a._kind_in((2,)))
            if L._kindno(b) is None:
                return False
        x = a._deref()
        y = b._deref() if lb else b
        if type(x) in (SymInt, SymFloat, SymStr) and type(y) is type(x):
            # identity of immutable scalars: same template position
            return lb and a.node is b.node or x is y
        return x is y
    if type(a) is SymBool and (b is True or b is False):
        return bool(a) is b
    if type(b) is SymBool and (a is True or a is False):
        return bool(b) is a
    return False


def contains(c, x):
    """x in c"""
    tc = type(c)
    if tc is LazyJSON:
        c = c._deref()
        tc = type(c)
    if tc is XDict or tc is XSet:
        return x in c
    if tc is SymStr:
        return c.contains(x)
    if tc is str:
        x = unlazy(x)
        if type(x) is SymStr:
            cs = x.fix()
            if len(cs) == 1:
                return mkbool(T.b_or(*[T.b_eq(cs[0], ord(ch)) for ch in set(c)]))
            return SymStr(tuple(map(ord, c))).contains(x)
        return x in c
    if tc in (set, frozenset, dict):
        x = unlazy(x)
        if type(x) in SYMT:
            if type(x) in (XDict, XSet) :
                raise TypeError(f"unhashable type: '{'dict' if type(x) is XDict else 'set'}'")
            out = []
            for y in c:
                out.append(V.bt(_py_eq(x, y)))
            return mkbool(T.b_or(*out))
        return x in c
    if tc in (list, tuple):
        tx = type(x)
        if tx in SYMT or is_sym(c, 1):
            for y in c:
                if y is x or bt(_py_eq(y, x)) is True:
                    return True
            out = [bt(_py_eq(y, x)) for y in c]
            return mkbool(T.b_or(*out))
        return x in c
    if tc is range and type(x) is SymInt:
        if c.step == 1:
            return mkbool(T.b_in(x.t, ((c.start, c.stop - 1),)))
        return any(bool(x == y) for y in c)
    return x in c


def _py_eq(a, b):
    return a == b


def cmp(op, a, b):
    if op == "is":
        return cmp_is(a, b)
    if op == "isnot":
        return not cmp_is(a, b)
    if op == "in":
        return contains(b, a)
    if op == "notin":
        r = contains(b, a)
        return mkbool(T.b_not(bt(r))) if type(r) is SymBool else not r
    raise AssertionError(op)


def eq(a, b):
    ta, tb = type(a), type(b)
    if (ta is list or ta is tuple) and ta is tb and (is_sym(a) or is_sym(b)):
        return mkbool(_seq_eq(a, b))
    if ta is dict and tb is dict and (is_sym(a) or is_sym(b)):
        return mkbool(L.eq_term(a, b, False))
    try:
        return a == b
    except TypeError:
        if not is_sym(a) and not is_sym(b) or _ours(ta) or _ours(tb):
            raise
    return realize(a) == realize(b)


def _seq_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        e = True if x is y else bt(eq(x, y))
        if e is False:
            return False
        out.append(e)
    return T.b_and(*out)


def ne(a, b):
    ta, tb = type(a), type(b)
    if (ta is list or ta is tuple) and ta is tb and (is_sym(a) or is_sym(b)):
        return mkbool(T.b_not(_seq_eq(a, b)))
    return a != b


# ---------------------------------------------------------------- subscripts


def sym_slice(seq, s):
    n = len(seq)
    out = []
    for i in sym_range_iter(*slice_indices(s, n)):
        out.append(seq[i])
    if type(seq) is tuple:
        return tuple(out)
    if type(seq) is str:
        return "".join(out)
    return out


def slice_indices(s, n):
    """slice.indices(n) on possibly symbolic bounds."""

    def idx(x):
        x = unlazy(x)
        if x is None or isinstance(x, int) or hasattr(type(x), "__index__"):
            return x
        raise TypeError("slice indices must be integers or None or have an __index__ method")

    start, stop, step = idx(s.start), idx(s.stop), idx(s.step)
    if step is None:
        step = 1
    if step == 0:
        raise ValueError("slice step cannot be zero")
    neg = bool(step < 0)
    lower, upper = (-1, n - 1) if neg else (0, n)

    def clamp(x, default):
        if x is None:
            return default
        if x < 0:
            x = x + n
            if x < lower:
                return lower
            return x
        if x > upper:
            return upper
        return x

    return (clamp(start, upper if neg else lower), clamp(stop, lower if neg else upper), step)


class SymRange:
    """range over symbolic bounds."""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    __class__ = property(lambda self: range)

    def __iter__(self):
        return sym_range_iter(self.start, self.stop, self.step)

    def __len__(self):
        return sum(1 for _ in self)

    def __contains__(self, x):
        return any(bool(x == y) for y in self)

    def __getitem__(self, i):
        return list(self)[i]

    def __reversed__(self):
        return reversed(list(self))


def sym_range_iter(start, stop, step):
    i = start
    n = 0
    neg = bool(step < 0)
    while bool(i > stop) if neg else bool(i < stop):
        if type(i) is SymInt:
            i = i._c("range")
        yield i
        i = i + step
        n += 1
        if n > 5000:
            raise Cut("range")


def getitem(o, i):
    to = type(o)
    if to is LazyJSON:
        o = o._deref()
        to = type(o)
    ti = type(i)
    if ti is LazyJSON:
        i = i._deref()
        ti = type(i)
    if to is list or to is tuple or to is str:
        if ti is SymInt:
            n = len(o)
            if not ENG.branch(T.b_in(i.t, ((-n, n - 1),))):
                raise IndexError(f"{to.__name__} index out of range")
            return o[i._c("getitem")]
        if ti is SymBool:
            return o[int(bool(i))]
        if ti is slice and is_sym(i):
            return sym_slice(o, i)
        if ti in SYMT and ti is not SymInt:
            raise TypeError(f"{to.__name__} indices must be integers or slices, not {type_of(i).__name__}")
        return o[i]
    if to is dict and (ti in SYMT or ti is tuple and is_sym(i)):
        if ti in (XDict, XSet):
            raise TypeError("unhashable type")
        for k in o:
            if L.key_eq(k, i):
                return o[k]
        if hasattr(to, "__missing__"):
            return o[realize(i)]
        raise KeyError(i)
    return o[i]


def setitem(o, i, v):
    to = type(o)
    if to is LazyJSON:
        o = o._deref()
        to = type(o)
    i = unlazy(i)
    ti = type(i)
    if to is list and ti is SymInt:
        n = len(o)
        if not ENG.branch(T.b_in(i.t, ((-n, n - 1),))):
            raise IndexError("list assignment index out of range")
        o[i._c("setitem")] = v
        return
    if to is list and ti in SYMT and ti is not SymInt and ti is not SymBool:
        raise TypeError(f"list indices must be integers or slices, not {type_of(i).__name__}")
    if to is dict and ti in SYMT:
        for k in o:
            if L.key_eq(k, i):
                o[k] = v
                return
        o[realize(i)] = v
        return
    if to in (str, tuple, SymStr, int, float, bool, type(None), SymInt, SymFloat, SymBool):
        raise TypeError(f"'{type_of(o).__name__}' object does not support item assignment")
    o[i] = v


def delitem(o, i):
    to = type(o)
    if to is LazyJSON:
        o = o._deref()
        to = type(o)
    i = unlazy(i)
    ti = type(i)
    if to is list and ti is SymInt:
        n = len(o)
        if not ENG.branch(T.b_in(i.t, ((-n, n - 1),))):
            raise IndexError("list assignment index out of range")
        del o[i._c("delitem")]
        return
    if to is list and ti in SYMT and ti is not SymInt and ti is not SymBool:
        raise TypeError(f"list indices must be integers or slices, not {type_of(i).__name__}")
    if to in (str, tuple, SymStr, int, float, bool, type(None), SymInt, SymFloat, SymBool):
        raise TypeError(f"'{type_of(o).__name__}' object doesn't support item deletion")
    if to is dict and ti in SYMT:
        for k in o:
            if L.key_eq(k, i):
                del o[k]
                return
        raise KeyError(i)
    del o[i]


def binmod(a, b):
    if type(a) is str and is_sym(b):
        return V.lazy_str(lambda: a % realize(b))
    return a % b


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            out.append(V.fmt_piece(v, conv, spec))
    return V.concat(out)


def mkdict(*pairs):
    d = XDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def mkset(*items):
    return XSet(items)


def dictcomp(it):
    d = XDict()
    for k, v in it:
        d[k] = v
    return d


# ---------------------------------------------------------------- builtins models


def type_of(x):
    t = type(x)
    if t in SYMT or t is SymRange:
        return x.__class__
    return t


_ISAMPLE = {SymStr: "", SymInt: 1, SymBool: True, SymFloat: 1.5, SymBytes: b"",
            L.XDict: {}, L.XSet: set()}


def m_isinstance(x, cls):
    if type(x) is LazyJSON:
        if x._done:
            return m_isinstance(x._v, cls)
        ks = [k for k in range(8) if isinstance(L.SAMPLE[k], cls)]
        return ENG.branch(x._kind_in(ks))
    s = _ISAMPLE.get(type(x), _ISAMPLE)
    return isinstance(x if s is _ISAMPLE else s, cls)


def m_type(*a, **k):
    if len(a) == 1 and not k:
        return type_of(a[0])
    if len(a) == 3 and type(a[2]) is XDict:
        a = (a[0], a[1], dict(a[2].items()))
    return type(*a, **k)


def m_len(x):
    x = unlazy(x)
    if type(x) is SymStr:
        return x.length()
    if x is None or type(x) in (SymInt, SymFloat, SymBool):
        raise TypeError(f"object of type '{type_of(x).__name__}' has no len()")
    return len(x)


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = unlazy(a[0])
    t = type(x)
    if t is SymInt:
        return SymInt(x.t, x.src)
    if t is SymBool:
        return int(bool(x))
    if t is SymStr:
        base = a[1] if len(a) > 1 else k.get("base", 10)
        return V.int_of_str(x, base)
    if t is SymFloat:
        return int(x._c())
    if isinstance(x, int) and t is not bool and t is not int:
        return int(x)
    return int(x, *a[1:], **k)


def m_float(*a):
    if not a:
        return 0.0
    x = unlazy(a[0])
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymInt:
        return SymFloat(T.t_scale(x.t, 4))
    if t is SymStr:
        return float(x.real(why="float"))
    return float(x)


def m_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is LazyJSON:
            x = x._deref()
        if type(x) is str:
            return x
        return V.sym_str(x)
    return str(*[realize(x) for x in a], **k)


def m_repr(x):
    return V.sym_repr(unlazy(x))


def m_bool(*a):
    if not a:
        return False
    x = a[0]
    if type(x) is SymBool:
        return x
    return bool(x)


def m_dict(*a, **k):
    return XDict(*a, **k)


def m_set(*a):
    return XSet(*a)


def m_frozenset(*a):
    if a and is_sym(list(a[0]) if not isinstance(a[0], (set, frozenset)) else a[0]):
        return XSet(a[0], frozenset)
    if a and not isinstance(a[0], (list, tuple, set, frozenset, str)):
        items = list(a[0])
        if is_sym(items):
            return XSet(items, frozenset)
        return frozenset(items)
    return frozenset(*a)


def m_range(*a):
    a = [unlazy(x) for x in a]
    if any(type(x) is SymInt for x in a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        if a[2] == 0:
            raise ValueError("range() arg 3 must not be zero")
        return SymRange(*a)
    return range(*a)


def m_slice(*a):
    return slice(*[unlazy(x) for x in a])


def m_ord(x):
    x = unlazy(x)
    if type(x) is SymStr:
        cs = x.fix()
        if len(cs) != 1:
            raise TypeError("ord() expected a character")
        return mkint(cs[0])
    return ord(x)


def m_chr(x):
    if type(x) is SymInt:
        if not ENG.branch(T.b_in(x.t, ((0, 0x10FFFF),))):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr((x.t,))
    return chr(x)


class HashVal(int):
    """hash(x) of a value with symbolic parts: equal exactly when the hashed
    values are equal (a collision of unequal values is not modelled)."""

    def __new__(cls, v):
        r = int.__new__(cls, 0)
        r.v = v
        return r

    def __eq__(self, o):
        return eq(self.v, o.v) if type(o) is HashVal else NotImplemented

    def __ne__(self, o):
        return ne(self.v, o.v) if type(o) is HashVal else NotImplemented

    __hash__ = int.__hash__


_hash_depth = 0


def m_hash(x):
    global _hash_depth
    h = getattr(type(x), "__hash__", None)
    if type(h) is FunctionType and not isinstance(x, Sym) and h.__code__.co_filename[-3:] == ".py" \
            and type(x).__module__.split(".")[0] != "se":
        _hash_depth += 1
        try:
            return h(x)
        finally:
            _hash_depth -= 1
    if _hash_depth:
        return HashVal(x)
    return hash(realize(x) if is_sym(x) else x)


def m_callable(x):
    if type(x) is LazyJSON:
        return False
    return callable(x)


def m_hasattr(x, name):
    x = unlazy(x)
    return hasattr(x, realize(name) if type(name) is SymStr else name)


def m_getattr(x, name, *a):
    return getattr(unlazy(x), realize(name) if type(name) is SymStr else name, *a)


def m_bytes(*a, **k):
    if a and type(unlazy(a[0])) is SymStr:
        return unlazy(a[0]).encode(*a[1:], **k)
    return bytes(*a, **k)


def callback(f):
    """f, for native code to call: builtins go through their models."""
    t = type(f)
    if t is BuiltinType or t is CMethodType or t is MethodDescriptor or t is WrapperDescriptor or t is type and f in MODELS:
        return functools.partial(call, f)
    return f


def m_iter(*a):
    return iter(unlazy(a[0]), *a[1:])


def m_sorted(it, *, key=None, reverse=False):
    return sorted(unlazy(it), key=callback(key), reverse=reverse)


def m_abs(x):
    return abs(unlazy(x))


def m_enumerate(it, start=0):
    return enumerate(unlazy(it), start)


def m_issubclass(a, b):
    return issubclass(a, b)


def m_print(*a, **k):
    sep = k.get("sep", " ")
    end = k.get("end", "\n")
    f = k.get("file")
    import sys

    f = sys.stdout if f is None else f
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(" " if sep is None else sep)
        parts.append(m_str(x))
    parts.append("\n" if end is None else end)
    text = V.concat(parts)
    if type(f).__module__ in ("_io", "io") and is_sym(text):
        text = realize(text)
    f.write(text)


def m_min(*a, **k):
    if k.get("key") is not None:
        k = dict(k, key=callback(k["key"]))
    if len(a) == 1:
        return min(list(unlazy(a[0])), **k)
    return min(*a, **k)


def m_max(*a, **k):
    if k.get("key") is not None:
        k = dict(k, key=callback(k["key"]))
    if len(a) == 1:
        return max(list(unlazy(a[0])), **k)
    return max(*a, **k)


def m_format(x, spec=""):
    return V.fmt_piece(x, None, spec)


def m_id(x):
    if type(x) is LazyJSON:
        x = x._deref()
    return id(x)


# ---------------------------------------------------------------- stdlib models


def m_reduce(f, it, *init):
    it = iter(unlazy(it))
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_islice(it, *a):
    a = [unlazy(x) for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    start = 0 if start is None else start
    step = 1 if step is None else step
    for name, x in (("start", start), ("stop", stop)):
        if x is not None and not isinstance(x, int) or x is not None and x < 0:
            raise ValueError(f"Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
    if not isinstance(step, int) or step < 1:
        raise ValueError("Step for islice() must be a positive integer or None.")
    return _islice_iter(iter(unlazy(it)), start, stop, step)


class _islice_iter:
    """itertools.islice with possibly symbolic bounds."""

    def __init__(self, it, start, stop, step):
        self.it = it
        self.next = start
        self.stop = stop
        self.step = step
        self.cnt = 0

    def __iter__(self):
        return self

    def __next__(self):
        # CPython's islice_next
        if self.it is None:
            raise StopIteration
        try:
            while self.cnt < self.next:
                next(self.it)
                self.cnt += 1
            if self.stop is not None and self.cnt >= self.stop:
                raise StopIteration
            v = next(self.it)
        except StopIteration:
            self.it = None
            raise
        self.cnt += 1
        self.next = self.next + self.step
        if self.stop is not None and self.next > self.stop:
            self.next = self.stop
        return v


class SymDeque(collections.deque):
    """deque with a symbolic maxlen, materialised eagerly."""


def m_deque(it=(), maxlen=None):
    maxlen = unlazy(maxlen)
    if type(maxlen) is SymInt:
        if maxlen < 0:
            raise ValueError("maxlen must be non-negative")
        items = list(unlazy(it))
        n = len(items)
        if maxlen >= n:
            return collections.deque(items)
        k = maxlen._c("deque")
        return collections.deque(items, maxlen=k)
    return collections.deque(unlazy(it), maxlen)


def m_tee(it, n=2):
    n = unlazy(n)
    if type(n) is SymInt:
        if n < 0:
            raise ValueError("n must be >= 0")
        n = n._c("tee")
    return itertools.tee(unlazy(it), n)


def m_defaultdict(factory=None, *a, **k):
    """collections.defaultdict over symbolic keys."""
    r = XDict(*a, **k)
    r._df = (factory,)
    return r


def m_lru_cache(*a, **k):
    if a and callable(a[0]):
        return SymCache(a[0], 128)
    maxsize = a[0] if a else k.get("maxsize", 128)
    return lambda f: SymCache(f, maxsize, a[1] if len(a) > 1 else k.get("typed", False))


def m_cache(f):
    return SymCache(f, None)


CACHES = []


class SymCache:
    """functools.lru_cache over symbolic keys (equality by solver)."""

    def __init__(self, f, maxsize, typed=False):
        self.f = f
        self.maxsize = maxsize
        self.typed = typed
        self.entries = []
        self.hits = self.misses = 0
        functools.update_wrapper(self, f)
        CACHES.append(self)

    def __get__(self, obj, cls=None):
        return self if obj is None else MethodType(self, obj)

    def __call__(self, *a, **k):
        key = (a, tuple(k.items()))
        for x in a:
            if isinstance(unlazy(x), (list, dict, set)) and not isinstance(unlazy(x), frozenset):
                raise TypeError("unhashable type")
        for i, (k2, v) in enumerate(self.entries):
            if self._same(k2, key):
                self.entries.append(self.entries.pop(i))
                self.hits += 1
                return v
        self.misses += 1
        v = self.f(*a, **k)
        if self.maxsize != 0:
            self.entries.append((key, v))
            if self.maxsize is not None and len(self.entries) > self.maxsize:
                del self.entries[0]
        return v

    def _same(self, x, y):
        (a, k), (b, q) = x, y
        if len(a) != len(b) or len(k) != len(q):
            return False
        for p, r in zip(a, b):
            if p is r:
                continue
            if self.typed and type_of(p) is not type_of(r):
                return False
            p, r = unlazy(p), unlazy(r)
            try:
                if not bool(eq(p, r)):
                    return False
            except Exception:
                return False
        return all(p == r for p, r in zip(k, q))

    def cache_clear(self):
        self.entries.clear()
        self.hits = self.misses = 0

    def cache_info(self):
        return (self.hits, self.misses, self.maxsize, len(self.entries))


def m_deepcopy(x, memo=None):
    return sym_deepcopy(x, {} if memo is None else memo)


def sym_deepcopy(x, memo):
    t = type(x)
    if t in (str, int, float, bool, type(None), SymStr, SymInt, SymFloat, SymBool):
        return x
    got = memo.get(id(x))
    if got is not None:
        return got[0]
    if t is LazyJSON:
        r = LazyJSON(x.node) if not x._done else sym_deepcopy(x._v, memo)
    elif t is XDict:
        r = XDict()
        memo[id(x)] = (r, x)
        for rk, v in x._d.items():
            r._d[L._SK(rk.k) if type(rk) is L._SK else rk] = sym_deepcopy(v, memo)
        r._ns = x._ns
        r._df = x._df
    elif t is list:
        r = []
        memo[id(x)] = (r, x)
        r.extend(sym_deepcopy(y, memo) for y in x)
    elif t is tuple:
        r = tuple(sym_deepcopy(y, memo) for y in x)
    elif t is dict:
        r = {}
        memo[id(x)] = (r, x)
        for k, v in x.items():
            r[k] = sym_deepcopy(v, memo)
    elif t is XSet:
        r = x.copy()
    elif hasattr(t, "__deepcopy__"):
        r = x.__deepcopy__(memo)
    elif isinstance(x, (type, FunctionType, BuiltinType, MethodType, types.ModuleType, re.Pattern)):
        r = x
    elif hasattr(x, "__dict__") or hasattr(t, "__slots__"):
        r = t.__new__(t) if not isinstance(x, BaseException) else copy.copy(x)
        memo[id(x)] = (r, x)
        for name, v in _state(x):
            object.__setattr__(r, name, sym_deepcopy(v, memo))
    else:
        r = copy.deepcopy(x)
    memo[id(x)] = (r, x)
    return r


def _state(x):
    out = list(getattr(x, "__dict__", {}).items())
    for c in type(x).__mro__:
        for s in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else (c.__slots__,):
            if s not in ("__dict__", "__weakref__") and hasattr(x, s):
                out.append((s, getattr(x, s)))
    return out


def m_copy(x):
    t = type(x)
    if t is LazyJSON:
        x = x._deref()
        t = type(x)
    if t is list:
        return list(x)
    if t in (XDict, XSet):
        return x.copy()
    if t in SYMT:
        return x
    return copy.copy(x)


def m_json_loads(s, **kw):
    s = unlazy(s)
    t = type(s)
    if hasattr(t, "__json_value__"):
        return s.__json_value__()
    if t is SymStr:
        return stdlib("json.decoder").JSONDecoder(**{k: v for k, v in kw.items() if k != "cls" and v is not None}).decode(s)
    if t in SYMT:
        raise TypeError(f"the JSON object must be str, bytes or bytearray, not {type_of(s).__name__}")
    return wrap_json(json.loads(s, **kw))


def m_json_load(fp, **kw):
    return m_json_loads(fp.read(), **kw)


def wrap_json(x):
    return x


def _plain(x):
    """(True, x as plain containers) if nothing in x is symbolic."""
    t = type(x)
    if t is XDict or t is dict:
        out = {}
        for k, v in x.items():
            if type(k) in SYMT:
                return False, None
            ok, w = _plain(v)
            if not ok:
                return False, None
            out[k] = w
        return True, out
    if t in (list, tuple):
        out = []
        for v in x:
            ok, w = _plain(v)
            if not ok:
                return False, None
            out.append(w)
        return True, out
    return t not in SYMT, x


def m_json_dumps(obj, **kw):
    obj = unlazy(obj)
    if type(obj) is str:
        return json.dumps(obj, **kw)
    if type(obj) is SymStr:
        enc = stdlib("json.encoder")
        f = enc.py_encode_basestring_ascii if kw.get("ensure_ascii", True) else enc.py_encode_basestring
        return f(obj)
    if is_sym(obj, 8):
        if type(obj) in (XDict, list, tuple):
            ok, v = _plain(obj)
            if ok:
                return json.dumps(v, **{k: realize(x) for k, x in kw.items()})
        if type(obj) in (LazyJSON, XDict, list, tuple):
            from .texts import JsonText

            return JsonText(obj, kw)
        return json.dumps(realize(obj), **{k: realize(v) for k, v in kw.items()})
    return json.dumps(obj, **kw)


def m_json_dump(obj, fp, **kw):
    from . import cli

    return cli.dump(obj, fp, **kw)


def m_open(*a, **k):
    from . import cli

    return cli.sym_open(*a, **k)


def m_codecs_decode(obj, encoding="utf-8", errors="strict"):
    if type(obj) is SymStr:
        e = V._norm_enc(encoding)
        if e == "unicode-escape":
            # str input is UTF-8 encoded first
            return V.unicode_escape(V.sym_encode(obj, "utf-8", "strict").bs, errors)
        return codecs.decode(obj.real(), encoding, errors)
    if type(obj) is SymBytes:
        return obj.decode(encoding, errors)
    return codecs.decode(obj, encoding, errors)


def m_codecs_encode(obj, encoding="utf-8", errors="strict"):
    if type(obj) is SymStr:
        return obj.encode(encoding, errors)
    return codecs.encode(obj, encoding, errors)


def m_unquote(s, encoding="utf-8", errors="replace"):
    if type(s) is not SymStr:
        return urllib.parse.unquote(s, encoding, errors)
    cs = s.fix()
    out = []
    i = 0
    run = []

    def flush():
        if run:
            out.extend(map(ord, bytes(ENG.concretize(b, 256, "unquote") for b in run).decode(encoding, errors))
                       if len(run) > 1 or not (type(run[0]) is not int and ENG.branch(T.b_le(run[0], 127))) else [run[0]])
            run.clear()

    while i < len(cs):
        c = cs[i]
        if ENG.branch(T.b_eq(c, 37)) and i + 2 < len(cs):
            hx = T.b_and(*[_is_hex(x) for x in cs[i + 1:i + 3]])
            if ENG.branch(hx):
                v = 0
                for x in cs[i + 1:i + 3]:
                    v = T.t_add(T.t_scale(v, 16), V._hexval(x))
                if ENG.branch(T.b_le(v, 127)):
                    flush()
                    out.append(v)
                else:
                    run.append(v)
                i += 3
                continue
        flush()
        out.append(c)
        i += 1
    flush()
    return mkstr(out)


def _is_hex(c):
    return T.b_in(c, ((48, 57), (65, 70), (97, 102)))


def m_re(name):
    f = getattr(re, name)

    def g(pattern, *a, **k):
        pattern = unlazy(pattern)
        a = [unlazy(x) for x in a]
        if type(pattern) is SymStr or any(is_sym(x) for x in a):
            flags = k.pop("flags", 0)
            nargs = {"compile": 0, "match": 1, "fullmatch": 1, "search": 1, "findall": 1, "finditer": 1,
                     "split": 1, "sub": 2, "subn": 2}[name]
            if len(a) > nargs:
                extra = a[nargs:]
                a = a[:nargs]
                if name in ("sub", "subn", "split"):
                    k["count" if name != "split" else "maxsplit"] = extra[0]
                    if len(extra) > 1:
                        flags = extra[1]
                else:
                    flags = extra[0]
            p = m_re_compile(pattern, flags)
            if name == "compile":
                return p
            return rx_method(p, name)(*a, **k)
        return f(pattern, *a, **k)

    return g


def m_re_compile(pattern, flags=0):
    if type(pattern) is SymStr:
        return rx.compile_pattern(pattern, flags)
    if pattern is not None and not isinstance(pattern, (str, bytes, re.Pattern)):
        raise TypeError("first argument must be string or compiled pattern")
    if isinstance(pattern, rx.SymPattern):
        return pattern
    return re.compile(pattern, flags)


def rx_method(p, name):
    if isinstance(p, rx.SymPattern):
        return getattr(p, name)
    return getattr(rx.RX(rx.prog_for(p), p), name)


def m_escape(s):
    if type(s) is SymStr:
        return rx.escape(s)
    return re.escape(s)


_STD = {}


def stdlib(name):
    """An instrumented copy of a pure-Python standard library module."""
    m = _STD.get(name)
    if m is None:
        from . import instrument

        m = _STD[name] = instrument.load_stdlib(name)
    return m


def m_getitem(o, i):
    return getitem(o, i)


def m_contains(c, x):
    return contains(c, x)


MODELS = {
    builtins.isinstance: m_isinstance,
    builtins.type: m_type,
    builtins.len: m_len,
    builtins.int: m_int,
    builtins.float: m_float,
    builtins.str: m_str,
    builtins.repr: m_repr,
    builtins.bool: m_bool,
    builtins.dict: m_dict,
    builtins.set: m_set,
    builtins.frozenset: m_frozenset,
    builtins.range: m_range,
    builtins.slice: m_slice,
    builtins.ord: m_ord,
    builtins.chr: m_chr,
    builtins.hash: m_hash,
    builtins.callable: m_callable,
    builtins.hasattr: m_hasattr,
    builtins.getattr: m_getattr,
    builtins.bytes: m_bytes,
    builtins.iter: m_iter,
    builtins.sorted: m_sorted,
    builtins.abs: m_abs,
    builtins.enumerate: m_enumerate,
    builtins.print: m_print,
    builtins.min: m_min,
    builtins.max: m_max,
    builtins.format: m_format,
    builtins.id: m_id,
    functools.reduce: m_reduce,
    functools.lru_cache: m_lru_cache,
    functools.cache: m_cache,
    itertools.islice: m_islice,
    itertools.tee: m_tee,
    collections.deque: m_deque,
    collections.defaultdict: m_defaultdict,
    copy.deepcopy: m_deepcopy,
    copy.copy: m_copy,
    json.loads: m_json_loads,
    json.load: m_json_load,
    json.dumps: m_json_dumps,
    json.dump: m_json_dump,
    builtins.open: m_open,
    codecs.decode: m_codecs_decode,
    codecs.encode: m_codecs_encode,
    urllib.parse.unquote: m_unquote,
    re.escape: m_escape,
    operator.getitem: m_getitem,
    operator.contains: m_contains,
    operator.setitem: setitem,
    operator.delitem: delitem,
    operator.eq: eq,
    operator.ne: ne,
    operator.is_: cmp_is,
    operator.is_not: lambda a, b: not cmp_is(a, b),
}
for _n in ("compile", "match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn"):
    MODELS[getattr(re, _n)] = m_re(_n)

# builtins that consume their arguments through the protocols the symbolic
# classes implement
TRANSPARENT = {
    builtins.any, builtins.all, builtins.sum, builtins.zip, builtins.map, builtins.filter,
    builtins.list, builtins.tuple, builtins.reversed, builtins.next, builtins.super, builtins.setattr,
    builtins.property, builtins.staticmethod, builtins.classmethod, builtins.vars, builtins.divmod, builtins.delattr,
    builtins.issubclass, builtins.object, itertools.chain, itertools.takewhile, itertools.dropwhile,
    itertools.zip_longest, itertools.count, itertools.starmap, itertools.repeat, itertools.cycle, functools.partial,
    collections.OrderedDict, itertools.accumulate, itertools.chain.from_iterable,
}


# classes whose first argument is called by native code
CALLERS = {builtins.map, builtins.filter, itertools.starmap, itertools.takewhile, itertools.dropwhile, itertools.filterfalse, functools.partial}


# ---------------------------------------------------------------- calls


def _str_method(f, a, k):
    name = f.__name__
    s = f.__self__
    if name == "format":
        return V.sym_format(s, a, k)
    if name == "join":
        items = a[0] if type(a[0]) in (list, tuple) else list(unlazy(a[0]))
        for x in items:
            if type(x) in SYMT:
                return SymStr(tuple(map(ord, s))).join(items)
        return s.join(items)
    if any_sym(a, k):
        return getattr(SymStr(tuple(map(ord, s))), name)(*[unlazy(x) for x in a], **k)
    return f(*a, **k)


def _list_method(f, a, k):
    name = f.__name__
    lst = f.__self__
    if name == "insert":
        i = unlazy(a[0])
        if type(i) is SymInt:
            n = len(lst)
            if ENG.branch(T.b_le(n, i.t)):
                i = n
            elif ENG.branch(T.b_le(i.t, -n)):
                i = 0
            else:
                i = i._c("insert")
        elif type(i) in SYMT:
            raise TypeError(f"'{type_of(i).__name__}' object cannot be interpreted as an integer")
        return f(i, a[1])
    if name == "pop" and a:
        i = unlazy(a[0])
        if type(i) is SymInt:
            n = len(lst)
            if not n:
                raise IndexError("pop from empty list")
            if not ENG.branch(T.b_in(i.t, ((-n, n - 1),))):
                raise IndexError("pop index out of range")
            i = i._c("pop")
        elif type(i) in SYMT:
            raise TypeError(f"'{type_of(i).__name__}' object cannot be interpreted as an integer")
        return f(i)
    if name in ("extend", "__iadd__", "__add__"):
        return f(unlazy(a[0]))
    if name == "sort":
        return f(*a, **k)
    if name in ("index", "count", "remove"):
        if is_sym(lst, 1) or any_sym(a, k):
            x = a[0]
            hits = 0
            for i, y in enumerate(lst):
                if y is x or bool(eq(y, x)):
                    if name == "index":
                        return i
                    if name == "remove":
                        del lst[i]
                        return None
                    hits += 1
            if name == "count":
                return hits
            raise ValueError("x not in list")
    return f(*a, **k)


def _dict_method(f, a, k):
    if not a or not any_sym(a[:1], {}):
        return f(*a, **k)
    name = f.__name__
    d = f.__self__
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
        key = unlazy(a[0])
        if type(key) in (XDict, XSet, list):
            raise TypeError("unhashable type")
        for kk in d:
            if L.key_eq(kk, key):
                return f(kk, *a[1:], **k)
        if name == "get":
            return a[1] if len(a) > 1 else None
        if name == "__contains__":
            return False
        if name == "pop" and len(a) > 1:
            return a[1]
        if name in ("__getitem__", "pop"):
            raise KeyError(key)
        return f(realize(key), *a[1:], **k)
    if name == "update":
        o = unlazy(a[0])
        for kk in list(o.keys() if hasattr(o, "keys") else o):
            if hasattr(o, "keys"):
                setitem(d, kk, o[kk])
            else:
                setitem(d, kk[0], kk[1])
        for kk, v in k.items():
            d[kk] = v
        return None
    return f(*[realize(x) for x in a], **k)


def _set_method(f, a, k):
    if not any_sym(a, k):
        return f(*a, **k)
    name = f.__name__
    s = f.__self__
    if name in ("add",):
        x = unlazy(a[0])
        if contains(s, x):
            return None
        return f(realize(x))
    r = getattr(XSet(s, type(s)), name)(*[unlazy(x) for x in a])
    if name in ("discard", "remove", "update"):
        raise Cut("set-method")
    return r


def _is_instr(f):
    return "se_instrumented_" in f.__globals__


def _ours(f):
    """Is f (a function or a class) code that runs instrumented, or may call it?"""
    if type(f) is FunctionType:
        return "se_instrumented_" in f.__globals__
    if isinstance(f, type):
        for c in f.__mro__:
            m = sys.modules.get(c.__module__)
            if m is None or "se_instrumented_" in m.__dict__:
                return True
    return False


def _plain_data(x):
    return x is None or is_sym(x) or isinstance(x, (str, bytes, int, float, list, tuple, dict, set, frozenset))


def native(f, a, k):
    """Call code that is not instrumented: where it refuses a symbolic value, call it again with concrete ones."""
    try:
        return f(*a, **k)
    except (TypeError, AttributeError):
        if _ours(f) or not all(_plain_data(x) for x in a) or not all(_plain_data(x) for x in k.values()):
            raise
        if not any(is_sym(x) or isinstance(x, (list, tuple, dict)) for x in (*a, *k.values())):
            raise
    return f(*[realize(x) for x in a], **{p: realize(q) for p, q in k.items()})


def call(f, *a, **k):
    tf = type(f)
    if tf is FunctionType:
        if "se_instrumented_" in f.__globals__:
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        return native(f, a, k)
    if tf is MethodType:
        g = f.__func__
        if type(g) is FunctionType and "se_instrumented_" not in g.__globals__:
            return native(f, a, k)
        return f(*a, **k)
    if tf is type:
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if f in CALLERS and a:
            return f(callback(a[0]), *a[1:], **k)
        return native(f, a, k)
    if tf is BuiltinType or tf is CMethodType:
        s = f.__self__
        ts = type(s)
        if ts is str:
            return _str_method(f, a, k)
        if ts is list:
            return _list_method(f, a, k)
        if ts is dict:
            return _dict_method(f, a, k)
        if ts is re.Pattern:
            if a and any_sym(a, k):
                return rx_method(s, f.__name__)(*[unlazy(x) for x in a], **k)
            return f(*a, **k)
        if ts is set or ts is frozenset:
            return _set_method(f, a, k)
        if ts is slice and f.__name__ == "indices":
            n = unlazy(a[0])
            if is_sym(s) or type(n) is SymInt:
                if type(n) is SymInt:
                    n = n._c("indices")
                return slice_indices(s, n)
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if (ts is type or s is None) and f not in TRANSPARENT:
            # a class method or static method of a native class
            if s is dict and f.__name__ == "fromkeys":
                return XDict.fromkeys(*[unlazy(x) for x in a])
            if any_sym(a, k):
                return f(*[realize(x) for x in a], **{p: realize(q) for p, q in k.items()})
            return f(*a, **k)
        if f in TRANSPARENT or isinstance(s, types.ModuleType) is False:
            # bound method of a native object (deque.append, io.write, ...)
            if isinstance(s, (io.TextIOBase,)) and any_sym(a, k):
                return f(*[realize(x) for x in a], **k)
            return f(*a, **k)
        if any_sym(a, k):
            return f(*[realize(x) for x in a], **{p: realize(q) for p, q in k.items()})
        return f(*a, **k)
    if tf is MethodWrapper:
        n = f.__name__
        s = f.__self__
        if n == "__str__" and isinstance(s, BaseException) and not a:
            args = s.args
            if len(args) == 0:
                return ""
            if len(args) == 1:
                return V.sym_repr(args[0]) if isinstance(s, KeyError) else V.sym_str(args[0])
            return V.lazy_str(lambda: str(tuple(realize(x) for x in args)))
        return f(*a, **k)
    if tf is MethodDescriptor or tf is WrapperDescriptor:
        # str.join("...", x), str.upper(x), ...
        if a:
            x = unlazy(a[0])
            owner = f.__objclass__
            if type(x) in SYMT and issubclass(type_of(x), owner):
                return getattr(x, f.__name__)(*a[1:], **k)
            return call(getattr(x, f.__name__), *a[1:], **k) if isinstance(x, owner) and owner in (str, list, dict) else f(*a, **k)
        return f(*a, **k)
    if tf in SYMT:
        return f(*a, **k)
    if f in _hashable_transparent(f):
        return f(*a, **k)
    m = None
    try:
        m = MODELS.get(f)
    except TypeError:
        pass
    if m is not None:
        return m(*a, **k)
    return native(f, a, k)


def _hashable_transparent(f):
    return ()


from .texts import JsonText as _JT  # noqa: E402

SYMT.add(_JT)
