"""Dicts/sets that tolerate symbolic keys, and lazily materialised JSON values."""
from __future__ import annotations

import collections

from . import terms as T
from . import values as V
from .chars import ALPHABET
from .engine import ENG
from .values import Sym, SymBool, SymFloat, SymInt, SymStr, bt, mkbool, mkstr, str_eq_term


class _SK:
    """Identity-hashed holder of a symbolic key."""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


def _issymkey(k):
    t = type(k)
    if t is str:
        return False
    if t is SymStr or t is SymInt or t is SymFloat or t is SymBool:
        return True
    if t is tuple:
        return any(_issymkey(x) for x in k)
    return False


def normkey(k):
    if type(k) is LazyJSON:
        k = k._deref()
    if type(k) is SymStr:
        cs = k.fix()
        for c in cs:
            if type(c) is not int:
                return k
        return "".join(map(chr, cs))
    return k


def key_eq(a, b):
    """Branching key equality."""
    sa = type(a) is str or type(a) is SymStr
    sb = type(b) is str or type(b) is SymStr
    if sa and sb:
        return ENG.branch(str_eq_term(a, b)) if ENG.active else a == b
    if sa != sb:
        return False
    return bool(a == b)


class XDict:
    __slots__ = ("_d", "_ns", "_df", "__weakref__")
    __class__ = property(lambda self: dict if self._df is None else collections.defaultdict)

    def __init__(self, *a, **k):
        self._d = {}
        self._ns = 0
        self._df = None
        if a or k:
            self.update(*a, **k)

    # -- core
    def _find(self, key):
        """The stored raw key equal to key, or None."""
        d = self._d
        if not _issymkey(key):
            if not self._ns:
                return (key,) if key in d else None
            if key in d:
                return (key,)
            for rk in d:
                if type(rk) is _SK and key_eq(rk.k, key):
                    return (rk,)
            return None
        for rk in d:
            if key_eq(rk.k if type(rk) is _SK else rk, key):
                return (rk,)
        return None

    def __getitem__(self, key):
        key = normkey(key)
        r = self._find(key)
        if r is None:
            if self._df is not None and self._df[0] is not None:
                self[key] = v = self._df[0]()
                return v
            raise KeyError(key)
        return self._d[r[0]]

    def __setitem__(self, key, value):
        key = normkey(key)
        r = self._find(key)
        if r is not None:
            self._d[r[0]] = value
        elif _issymkey(key):
            self._d[_SK(key)] = value
            self._ns += 1
        else:
            self._d[key] = value

    def __delitem__(self, key):
        key = normkey(key)
        r = self._find(key)
        if r is None:
            raise KeyError(key)
        del self._d[r[0]]
        if type(r[0]) is _SK:
            self._ns -= 1

    def __contains__(self, key):
        return self._find(normkey(key)) is not None

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        for rk in self._d:
            yield rk.k if type(rk) is _SK else rk

    def __reversed__(self):
        for rk in reversed(self._d):
            yield rk.k if type(rk) is _SK else rk

    def _raw_add(self, key, value):
        """Add a key known to be distinct from the others."""
        key = normkey(key)
        if _issymkey(key):
            self._d[_SK(key)] = value
            self._ns += 1
        else:
            self._d[key] = value

    # -- dict API
    def get(self, key, default=None):
        r = self._find(normkey(key))
        return default if r is None else self._d[r[0]]

    def setdefault(self, key, default=None):
        key = normkey(key)
        r = self._find(key)
        if r is None:
            self[key] = default
            return default
        return self._d[r[0]]

    _MISSING = object()

    def pop(self, key, default=_MISSING):
        key = normkey(key)
        r = self._find(key)
        if r is None:
            if default is XDict._MISSING:
                raise KeyError(key)
            return default
        if type(r[0]) is _SK:
            self._ns -= 1
        return self._d.pop(r[0])

    def popitem(self):
        rk, v = self._d.popitem()
        if type(rk) is _SK:
            self._ns -= 1
            rk = rk.k
        return rk, v

    def clear(self):
        self._d.clear()
        self._ns = 0

    def copy(self):
        r = XDict()
        r._d = dict(self._d)
        r._ns = self._ns
        r._df = self._df
        return r

    __copy__ = copy

    def update(self, *a, **k):
        for o in a:
            o = V._pre(o)
            if hasattr(o, "keys"):
                for key in o.keys():
                    self[key] = o[key]
            else:
                for key, val in o:
                    self[key] = val
        for key, val in k.items():
            self[key] = val

    def keys(self):
        return XView(self, 0)

    def values(self):
        return XView(self, 1)

    def items(self):
        return XView(self, 2)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = XDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    @classmethod
    def fromkeys(cls, ks, v=None):
        r = XDict()
        for k in ks:
            r[k] = v
        return r

    def __eq__(self, o):
        if V.foreign(o):
            return NotImplemented
        return mkbool(eq_term(self, o, False))

    def __ne__(self, o):
        if V.foreign(o):
            return NotImplemented
        return mkbool(T.b_not(eq_term(self, o, False)))

    __hash__ = None

    def __repr__(self):
        if ENG.active:
            return repr(V.realize(self))
        return "XDict(" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + ")"

    __str__ = __repr__


class XView:
    __slots__ = ("x", "w")

    def __init__(self, x, w):
        self.x = x
        self.w = w

    def __iter__(self):
        w = self.w
        for rk, v in self.x._d.items():
            k = rk.k if type(rk) is _SK else rk
            yield k if w == 0 else v if w == 1 else (k, v)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self):
        return len(self.x)

    def __contains__(self, o):
        if self.w == 0:
            return o in self.x
        return any(bool(o == y) for y in self)

    def __eq__(self, o):
        if self.w == 0:
            return XSet(self) == XSet(o)
        return list(self) == list(o)

    __hash__ = None

    def __and__(self, o):
        return XSet(self) & o

    def __or__(self, o):
        return XSet(self) | o

    def __sub__(self, o):
        return XSet(self) - o

    def isdisjoint(self, o):
        return not (XSet(self) & o)

    def __repr__(self):
        return f"XView({list(self)!r})"


class XSet:
    __slots__ = ("_x", "_cls")

    def __init__(self, it=(), cls=set):
        self._x = XDict()
        self._cls = cls
        for i in it:
            self._x[i] = None

    __class__ = property(lambda self: self._cls)

    def add(self, i):
        self._x[i] = None

    def discard(self, i):
        self._x.pop(i, None)

    def remove(self, i):
        del self._x[i]

    def pop(self):
        return self._x.popitem()[0]

    def clear(self):
        self._x.clear()

    def update(self, *its):
        for it in its:
            for i in it:
                self._x[i] = None

    def copy(self):
        return XSet(self, self._cls)

    def __contains__(self, i):
        return i in self._x

    def __iter__(self):
        return iter(self._x)

    def __len__(self):
        return len(self._x)

    def __or__(self, o):
        r = XSet(self, self._cls)
        r.update(o)
        return r

    def union(self, *os):
        r = XSet(self, self._cls)
        r.update(*os)
        return r

    __ror__ = __or__

    def __and__(self, o):
        return XSet([i for i in self if i in o], self._cls)

    intersection = __and__
    __rand__ = __and__

    def __sub__(self, o):
        return XSet([i for i in self if i not in o], self._cls)

    difference = __sub__

    def __rsub__(self, o):
        return XSet([i for i in o if i not in self], self._cls)

    def __xor__(self, o):
        return (self - o) | (XSet(o) - self)

    symmetric_difference = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for i in list(o):
            self.discard(i)
        return self

    def __iand__(self, o):
        for i in list(self):
            if i not in o:
                self.discard(i)
        return self

    def issubset(self, o):
        o = o if isinstance(o, (set, frozenset, dict)) else list(o)
        return all(i in o for i in self)

    __le__ = issubset

    def issuperset(self, o):
        return all(i in self for i in o)

    __ge__ = issuperset

    def isdisjoint(self, o):
        return not any(i in self for i in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return len(self) == len(o) and all(i in self for i in o)

    def __hash__(self):
        if self._cls is frozenset:
            return hash(frozenset(V.realize(x) for x in self))
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return f"XSet({list(self)!r})"


# ---------------------------------------------------------------- lazy JSON

KINDS = ("null", "true", "false", "int", "float", "str", "list", "dict")
SAMPLE = (None, True, False, 0, 0.5, "", [], {})
K_LIST, K_DICT = 6, 7


class Spec:
    """Bounds of a lazily materialised JSON value."""

    def __init__(self, kinds=KINDS, depth=1, width=2, slen=1, klen=1, ints=(-3, 3),
                 floats=(-6, 6), alpha=ALPHABET, kalpha=None, keys=None, child=None,
                 minwidth=0, kmin=0, smin=0, dwidth=None, strs=None):
        self.kinds = tuple(kinds)
        self.depth = depth
        self.width = width
        self.dwidth = width if dwidth is None else dwidth
        self.slen = slen
        self.smin = smin
        self.klen = klen
        self.kmin = kmin
        self.ints = ints
        self.floats = floats
        self.alpha = alpha
        self.kalpha = kalpha or alpha
        self.keys = keys
        self.minwidth = minwidth
        self.child = child
        self.strs = strs
        self.krs = T.rs_vals([KINDS.index(k) for k in self.kinds])
        self._child = None

    def sub(self):
        if self.child is not None:
            return self.child
        if self._child is None:
            self._child = Spec(
                self.kinds, self.depth - 1, self.width, self.slen, self.klen, self.ints,
                self.floats, self.alpha, self.kalpha, self.keys, None, self.minwidth,
                self.kmin, self.smin, self.dwidth, self.strs)
        return self._child

    def describe(self):
        if self.child:
            return {"kinds": self.kinds, "width": self.width, "children": self.child.describe()}
        return {
            "kinds": "all" if self.kinds == KINDS else list(self.kinds),
            "depth": self.depth, "width": self.width,
            "strings<=": self.slen if self.strs is None else list(self.strs),
            "names": list(self.keys) if self.keys else f"<= {self.klen} symbolic chars",
            "ints": self.ints, "floats/4": self.floats,
        }


class Node:
    """One position of the document template (shared by all its copies)."""

    __slots__ = ("name", "spec", "kind", "_kids", "_keys", "_n", "_dn", "_int", "_float", "_str")

    def __init__(self, name, spec):
        self.name = name
        self.spec = spec
        self.kind = T.var(name + ".kind", spec.krs)
        self._kids = {}
        self._keys = {}
        self._n = self._dn = self._int = self._float = self._str = None

    def int_var(self):
        if self._int is None:
            self._int = T.var(self.name + ".i", (self.spec.ints,))
        return self._int

    def float_var(self):
        if self._float is None:
            self._float = T.var(self.name + ".f", (self.spec.floats,))
        return self._float

    def str_parts(self):
        if self._str is None:
            self._str = str_vars(self.name + ".s", self.spec.smin, self.spec.slen, self.spec.alpha)
        return self._str

    def n_var(self, dict_=False):
        s = self.spec
        w = s.dwidth if dict_ else s.width
        if s.depth <= 0 and s.child is None:
            w = 0
        lo = min(s.minwidth, w)
        return T.var(self.name + (".dn" if dict_ else ".n"), ((lo, w),))

    def kid(self, i, dict_=False):
        k = (i, dict_)
        r = self._kids.get(k)
        if r is None:
            nm = f"{self.name}{{{i}}}" if dict_ else f"{self.name}[{i}]"
            r = self._kids[k] = Node(nm, self.spec.sub())
        return r

    def key_parts(self, i):
        r = self._keys.get(i)
        if r is None:
            r = self._keys[i] = str_vars(f"{self.name}{{{i}}}.k", self.spec.kmin, self.spec.klen, self.spec.kalpha)
        return r

    def key_sel(self, i):
        return T.var(f"{self.name}{{{i}}}.ks", ((0, len(self.spec.keys) - 1),))

    def str_sel(self):
        return T.var(f"{self.name}.ss", ((0, len(self.spec.strs) - 1),))


def str_vars(name, lo, hi, alpha):
    """(length term or int, char vars)"""
    n = lo if lo == hi else T.var(name + ".len", ((lo, hi),))
    return n, tuple(T.var(f"{name}.{i}", alpha) for i in range(hi))


def sym_str_of(parts):
    n, cs = parts
    if type(n) is int:
        return SymStr(cs) if n else ""
    return SymStr(cs, n)


class LazyJSON(Sym):
    __slots__ = ("node", "_v", "_done", "__weakref__")

    def __init__(self, node):
        self.node = node
        self._v = None
        self._done = False

    def _kind_in(self, kinds):
        """Term: the kind is one of the given kind numbers."""
        return T.b_in(self.node.kind, T.rs_vals(kinds))

    def _deref(self):
        if self._done:
            return self._v
        node = self.node
        k = ENG.concretize(node.kind, 16, "kind")
        if k == 0:
            v = None
        elif k == 1:
            v = True
        elif k == 2:
            v = False
        elif k == 3:
            v = SymInt(node.int_var())
        elif k == 4:
            v = SymFloat(node.float_var())
        elif k == 5:
            if node.spec.strs is not None:
                v = node.spec.strs[ENG.concretize(node.str_sel(), 64, "strs")]
            else:
                v = sym_str_of(node.str_parts())
        elif k == 6:
            n = ENG.concretize(node.n_var(), 16, "width")
            v = [LazyJSON(node.kid(i)) for i in range(n)]
        else:
            n = ENG.concretize(node.n_var(True), 16, "width")
            v = XDict()
            if node.spec.keys is not None:
                used = set()
                for i in range(n):
                    s = node.key_sel(i)
                    if used:
                        ENG.assume(T.b_in(s, T.rs_not(T.rs_vals(used))))
                    j = ENG.concretize(s, 64, "keys")
                    used.add(j)
                    v._d[node.spec.keys[j]] = LazyJSON(node.kid(i, True))
            else:
                keys = [sym_str_of(node.key_parts(i)) for i in range(n)]
                for i in range(n):
                    for j in range(i):
                        ENG.assume(T.b_not(str_eq_term(keys[i], keys[j])))
                for i in range(n):
                    v._raw_add(keys[i], LazyJSON(node.kid(i, True)))
        self._v = v
        self._done = True
        return v

    @property
    def __class__(self):
        if not ENG.active:
            return LazyJSON
        return type(SAMPLE[ENG.concretize(self.node.kind, 16, "class")])

    def __eq__(self, o):
        if V.foreign(o):
            return NotImplemented
        return mkbool(eq_term(self, o, False))

    def __ne__(self, o):
        if V.foreign(o):
            return NotImplemented
        return mkbool(T.b_not(eq_term(self, o, False)))

    def __bool__(self):
        n = self.node
        if self._done:
            return bool(self._v)
        if ENG.branch(self._kind_in((3, 4, 5, 6, 7))):
            return bool(self._deref())
        return ENG.branch(self._kind_in((1,)))

    def __hash__(self):
        return hash(self._deref())

    def __iter__(self):
        return iter(_need_iter(self._deref()))

    def __len__(self):
        return len(self._deref())

    def __contains__(self, o):
        return o in self._deref()

    def __getitem__(self, i):
        from . import hooks

        return hooks.getitem(self._deref(), i)

    def __setitem__(self, i, v):
        from . import hooks

        return hooks.setitem(self._deref(), i, v)

    def __delitem__(self, i):
        from . import hooks

        return hooks.delitem(self._deref(), i)

    def __reversed__(self):
        return reversed(self._deref())

    def __index__(self):
        v = self._deref()
        if isinstance(v, int):
            return int(v)
        raise TypeError("object cannot be interpreted as an integer")

    def __int__(self):
        return int(self._deref())

    def __float__(self):
        return float(self._deref())

    def __repr__(self):
        if not ENG.active:
            return f"<Lazy {self.node.name}{'=' + repr(self._v) if self._done else ''}>"
        return repr(V.realize(self))

    def __str__(self):
        if not ENG.active:
            return self.__repr__()
        return str(V.realize(self))

    def __format__(self, spec):
        return format(V.realize(self), spec)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__") and name not in ("__len__",):
            # dunder probing on a lazily typed value: only item getters matter
            if name in ("__getitem__", "__iter__", "__len__", "__contains__"):
                return getattr(self._deref(), name)
            v = self._deref()
            return getattr(v, name)
        return getattr(self._deref(), name)

    def __call__(self, *a, **k):
        raise TypeError("object is not callable")


def _need_iter(v):
    return v


def _delegate(name):
    import operator

    def op(self, o):
        return getattr(operator, name)(self._deref(), V._pre(o))

    def rop(self, o):
        return getattr(operator, name)(V._pre(o), self._deref())

    return op, rop


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    _o, _r = _delegate(_n if _n != "pow" else "pow")
    setattr(LazyJSON, f"__{_n}__", _o)
    setattr(LazyJSON, f"__r{_n}__", _r)
for _n in ("lt", "le", "gt", "ge"):
    setattr(LazyJSON, f"__{_n}__", _delegate(_n)[0])
for _n in ("neg", "pos", "abs", "invert"):
    import operator as _op

    setattr(LazyJSON, f"__{_n}__", (lambda f: lambda self: f(self._deref()))(getattr(_op, _n if _n != "abs" else "abs")))

V._LAZY.add(LazyJSON)


# ---------------------------------------------------------------- equality


def _kindno(v):
    """Kind number of a non-lazy JSON-ish value, None for other objects."""
    t = type(v)
    if v is None:
        return 0
    if v is True:
        return 1
    if v is False:
        return 2
    if t is int or t is SymInt:
        return 3
    if t is float or t is SymFloat:
        return 4
    if t is str or t is SymStr:
        return 5
    if t is list or t is tuple:
        return 6
    if t is XDict or t is dict:
        return 7
    return None


def _leaf(node, k):
    if k == 3:
        return SymInt(node.int_var())
    if k == 4:
        return SymFloat(node.float_var())
    return sym_str_of(node.str_parts())


def eq_term(a, b, strict):
    """Formula for a == b.  strict: JSON equality (a boolean is not a number);
    otherwise Python equality."""
    la, lb = type(a) is LazyJSON, type(b) is LazyJSON
    if la and a._done:
        a, la = a._v, False
    if lb and b._done:
        b, lb = b._v, False
    if a is b:
        return True
    if la and lb and a.node is b.node:
        return True
    if la or lb:
        if not la:
            a, b, la, lb = b, a, lb, la
        dom = ENG.domain(a.node.kind)
        if lb:
            domb = ENG.domain(b.node.kind)
            if (T.rs_and(dom, ((6, 7),)) and T.rs_and(domb, ((6, 7),))) or a.node.spec.strs is not None or b.node.spec.strs is not None:
                # both may be containers: settle the kinds by forking
                return eq_term(a._deref(), b._deref(), strict)
            out = []
            for ka in range(6):
                if not T.rs_has(dom, ka):
                    continue
                for kb in range(6):
                    if not T.rs_has(domb, kb):
                        continue
                    e = _scalar_eq(_val(a.node, ka), _val(b.node, kb), strict)
                    if e is not False:
                        out.append(T.b_and(a._kind_in((ka,)), b._kind_in((kb,)), e))
            return T.b_or(*out)
        kb = _kindno(b)
        if kb is None:
            if type(b) is SymBool:
                return eq_term(a, bool(b), strict)
            if isinstance(b, Sym):
                return bt(a._deref() == b)
            # an object of the library: never equal to JSON data unless it says so
            r = b.__eq__(a) if type(b).__eq__ is not object.__eq__ else False
            return False if r is NotImplemented else bt(r)
        if kb >= 6:
            if not T.rs_has(dom, kb):
                return False
            if ENG.branch(a._kind_in((kb,))):
                return eq_term(a._deref(), b, strict)
            return False
        if a.node.spec.strs is not None and kb == 5:
            if ENG.branch(a._kind_in((5,))):
                return eq_term(a._deref(), b, strict)
            return False
        out = []
        for ka in range(6):
            if T.rs_has(dom, ka):
                e = _scalar_eq(_val(a.node, ka), b, strict)
                if e is not False:
                    out.append(T.b_and(a._kind_in((ka,)), e))
        return T.b_or(*out)
    ka, kb = _kindno(a), _kindno(b)
    if ka is None or kb is None:
        if type(a) is SymBool or type(b) is SymBool:
            return bt(a == b)
        if type(a) is XDict or type(b) is XDict:
            f, o = (b, a) if type(a) is XDict else (a, b)
            r = type(f).__eq__(f, o) if type(f).__eq__ is not object.__eq__ else False
            return False if r is NotImplemented else bt(r)
        return bt(a == b)
    if ka < 6 and kb < 6:
        return _scalar_eq(a, b, strict)
    if ka != kb:
        return False
    if ka == 6:
        if not strict and (type(a) is tuple) != (type(b) is tuple):
            return False
        if len(a) != len(b):
            return False
        parts = []
        for x, y in zip(a, b):
            e = eq_term(x, y, strict)
            if e is False:
                return False
            parts.append(e)
        return T.b_and(*parts)
    if len(a) != len(b):
        return False
    parts = []
    ib = list(b.items())
    for k, x in a.items():
        alts = []
        for k2, y in ib:
            ke = _scalar_eq(k, k2, strict)
            if ke is False:
                continue
            e = eq_term(x, y, strict)
            alts.append(T.b_and(ke, e))
            if ke is True:
                alts = [e]
                break
        e = T.b_or(*alts)
        if e is False:
            return False
        parts.append(e)
    return T.b_and(*parts)


def _val(node, k):
    return SAMPLE[k] if k < 3 else _leaf(node, k)


def _scalar_eq(a, b, strict):
    ka, kb = _kindno(a), _kindno(b)
    if ka is None or kb is None:
        return bt(a == b)
    if ka == 0 or kb == 0:
        return ka == kb
    if ka == 5 or kb == 5:
        return ka == kb and str_eq_term(a, b)
    if ka in (1, 2) or kb in (1, 2):
        if strict:
            return ka == kb
        return bt(V._cmp(a, b, "eq")) if (isinstance(a, Sym) or isinstance(b, Sym)) else a == b
    if isinstance(a, Sym) or isinstance(b, Sym):
        return bt(V._cmp(a, b, "eq"))
    return a == b


def native_json(v, strict=True):
    """Evaluate json equality natively: used by the concrete runs."""


def deepcopy(v, memo=None):
    t = type(v)
    if t is LazyJSON:
        if not v._done:
            return LazyJSON(v.node)
        return deepcopy(v._v)
    if t is XDict:
        r = XDict()
        for rk, x in v._d.items():
            r._d[_SK(rk.k) if type(rk) is _SK else rk] = deepcopy(x)
        r._ns = v._ns
        return r
    if t is list:
        return [deepcopy(x) for x in v]
    if t is tuple:
        return tuple(deepcopy(x) for x in v)
    if t is dict:
        return {k: deepcopy(x) for k, x in v.items()}
    if issubclass(t, Sym):
        return v
    import copy

    return copy.deepcopy(v)


def _realize_lazy(v):
    return V.realize(v._deref())


def _realize_xdict(v):
    return {V.realize(k): V.realize(x) for k, x in v.items()}


V._REALIZERS[LazyJSON] = _realize_lazy
V._REALIZERS[XDict] = _realize_xdict
V._REALIZERS[XSet] = lambda v: v._cls(V.realize(x) for x in v)


# ---------------------------------------------------------------- concretise


def native_of_node(name, spec, m):
    """The native JSON value a model gives to a template node."""
    node = Node(name, spec)
    k = T.ev(node.kind, m)
    if k < 3:
        return SAMPLE[k]
    if k == 3:
        return T.ev(node.int_var(), m)
    if k == 4:
        return T.ev(node.float_var(), m) / 4
    if k == 5:
        if spec.strs is not None:
            return spec.strs[T.ev(node.str_sel(), m)]
        return native_str(node.str_parts(), m)
    if k == 6:
        n = T.ev(node.n_var(), m)
        return [native_of_node(node.kid(i).name, spec.sub(), m) for i in range(n)]
    n = T.ev(node.n_var(True), m)
    out = {}
    for i in range(n):
        if spec.keys is not None:
            key = spec.keys[T.ev(node.key_sel(i), m)]
        else:
            key = native_str(node.key_parts(i), m)
        out[key] = native_of_node(node.kid(i, True).name, spec.sub(), m)
    return out


def native_str(parts, m):
    n, cs = parts
    n = T.ev(n, m)
    return "".join(chr(T.ev(c, m)) for c in cs[:n])


def under_model(v, m):
    """Native image of a symbolic value under a model (no forking)."""
    t = type(v)
    if t is SymBool:
        return T.ev(v.t, m)
    if t is SymInt:
        return T.ev(v.t, m)
    if t is SymFloat:
        return T.ev(v.t, m) / 4
    if t is SymStr:
        if v.thunk is not None:
            return None
        cs = v.cs if v.n is None else v.cs[: T.ev(v.n, m)]
        return "".join(chr(T.ev(c, m)) for c in cs)
    if t is V.SymBytes:
        return bytes(T.ev(c, m) for c in v.bs)
    if t is LazyJSON:
        if v._done:
            return under_model(v._v, m)
        return native_of_node(v.node.name, v.node.spec, m)
    if t is XDict:
        return {under_model(k, m): under_model(x, m) for k, x in v.items()}
    if t is list:
        return [under_model(x, m) for x in v]
    if t is tuple:
        return tuple(under_model(x, m) for x in v)
    if t is dict:
        return {under_model(k, m): under_model(x, m) for k, x in v.items()}
    if t is XSet:
        return v._cls(under_model(x, m) for x in v)
    return v
