"""Symbolic Python values: bool, int, float (quarters), str."""
from __future__ import annotations

import types

from fractions import Fraction
import math

from . import terms as T
from .chars import ASCII_DIGIT, char_map, in_pred, rs_pred
from .engine import ENG, Cut


class Sym:
    """Base of every symbolic value."""

    __slots__ = ()


def bt(x):
    """Boolean term of a SymBool/bool/any value (truthiness)."""
    t = type(x)
    if t is bool:
        return x
    if t is SymBool:
        return x.t
    return bool(x)


def mkbool(t):
    return t if t is True or t is False else SymBool(t)


def mkint(t):
    return t if type(t) is int else SymInt(t)


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return ENG.branch(self.t)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(T.b_not(T.b_xor(self.t, o.t)))
        if type(o) is bool:
            return self if o else mkbool(T.b_not(self.t))
        if foreign(o):
            return NotImplemented
        return bool(self) == o

    def __ne__(self, o):
        return _ne(self.__eq__(o))

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(T.b_and(self.t, bt(o)))
        return bool(self) & o

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(T.b_or(self.t, bt(o)))
        return bool(self) | o

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(T.b_xor(self.t, bt(o)))
        return bool(self) ^ o

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __invert__(self):
        return ~bool(self)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return int(bool(self)) // o

    def __rfloordiv__(self, o):
        return o // int(bool(self))

    def __mod__(self, o):
        return int(bool(self)) % o

    def __rmod__(self, o):
        return o % int(bool(self))

    def __truediv__(self, o):
        return int(bool(self)) / o

    def __rtruediv__(self, o):
        return o / int(bool(self))

    def __pow__(self, o):
        return int(bool(self)) ** o

    def __rpow__(self, o):
        return o ** int(bool(self))

    def __lshift__(self, o):
        return int(bool(self)) << o

    def __rlshift__(self, o):
        return o << int(bool(self))

    def __rshift__(self, o):
        return int(bool(self)) >> o

    def __neg__(self):
        return -int(bool(self))

    def __pos__(self):
        return int(bool(self))

    def __abs__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __lt__(self, o):
        return bool(self) < o

    def __le__(self, o):
        return bool(self) <= o

    def __gt__(self, o):
        return bool(self) > o

    def __ge__(self, o):
        return bool(self) >= o

    def __repr__(self):
        return str(bool(self)) if ENG.active else f"<SymBool {T.show(self.t)}>"


# ---------------------------------------------------------------- numbers


def _num(x):
    """(numerator term, denominator) of a finite number, else None."""
    t = type(x)
    if t is int:
        return x, 1
    if t is SymInt:
        return x.t, 1
    if t is bool:
        return int(x), 1
    if t is SymFloat:
        return x.t, 4
    if t is SymBool:
        return T.t_ite(x.t, 1, 0), 1
    if t is float:
        if math.isinf(x) or math.isnan(x):
            return None
        f = Fraction(x)
        return f.numerator, f.denominator
    return None


def _cmp(a, b, op):
    na, nb = _num(a), _num(b)
    if na is None or nb is None:
        if isinstance(b, float) or isinstance(a, float):
            # inf / nan against a finite symbolic number
            x = 0.0 if na is not None else a
            y = 0.0 if nb is not None else b
            return {"eq": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
        return NotImplemented
    x = T.t_scale(na[0], nb[1])
    y = T.t_scale(nb[0], na[1])
    if op == "eq":
        r = T.b_eq(x, y)
    elif op == "lt":
        r = T.b_lt(x, y)
    elif op == "le":
        r = T.b_le(x, y)
    elif op == "gt":
        r = T.b_lt(y, x)
    else:
        r = T.b_le(y, x)
    return mkbool(r)


def foreign(o):
    """Whether a class of the code under test decides equality with o."""
    t = type(o)
    return type(t.__eq__) is types.FunctionType and not t.__module__.startswith("se.")


def _ne(r):
    if r is NotImplemented:
        return r
    return mkbool(T.b_not(bt(r)))


def _pre(o):
    if type(o) in _LAZY:
        return o._deref()
    return o


_LAZY = set()  # filled by lazy.py


class _SymNum(Sym):
    __slots__ = ()

    def __eq__(self, o):
        r = _cmp(self, _pre(o), "eq")
        return (NotImplemented if foreign(o) else False) if r is NotImplemented else r

    def __ne__(self, o):
        return _ne(self.__eq__(o))

    def __lt__(self, o):
        return _cmp(self, _pre(o), "lt")

    def __le__(self, o):
        return _cmp(self, _pre(o), "le")

    def __gt__(self, o):
        return _cmp(self, _pre(o), "gt")

    def __ge__(self, o):
        return _cmp(self, _pre(o), "ge")

    def __bool__(self):
        return ENG.branch(T.b_not(T.b_eq(self.t, 0)))

    def __pos__(self):
        return self


def _int_of(o):
    return o._c("bits") if type(o) is SymInt else o


class SymInt(_SymNum):
    __slots__ = ("t", "src")

    def __init__(self, t, src=None):
        self.t = t
        self.src = src

    __class__ = property(lambda self: int)

    def _c(self, why="int"):
        return ENG.concretize(self.t, 64, why)

    def __hash__(self):
        return hash(self._c("hash-int"))

    def __index__(self):
        return self._c("index")

    def __int__(self):
        return self._c("int")

    def __trunc__(self):
        return self

    def __float__(self):
        return float(self._c("float"))

    def _arith(self, o, f):
        o = _pre(o)
        t = type(o)
        if t is int or t is SymInt or t is bool:
            return mkint(f(self.t, o.t if t is SymInt else int(o)))
        if t is float or t is SymFloat:
            return NotImplemented
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, T.t_add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: T.t_add(a, b, -1))

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: T.t_add(b, a, -1))

    def __mul__(self, o):
        if type(o) in (str, SymStr, list, tuple):
            return o * self._c("repeat")
        return self._arith(o, T.t_mul)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(T.t_scale(self.t, -1))

    def __abs__(self):
        return self if ENG.branch(T.b_le(0, self.t)) else -self

    def __floordiv__(self, o):
        if type(o) is int and o != 0:
            return mkint(T.t_div(self.t, o))
        return self._c("div") // o

    def __mod__(self, o):
        if type(o) is int and o != 0:
            return mkint(T.t_mod(self.t, o))
        return self._c("mod") % o

    def __rfloordiv__(self, o):
        return o // self._c("div")

    def __rmod__(self, o):
        return o % self._c("mod")

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return self._c("truediv") / o

    def __rtruediv__(self, o):
        return o / self._c("truediv")

    def __pow__(self, o):
        return self._c("pow") ** o

    def __rpow__(self, o):
        return o ** self._c("pow")

    def __and__(self, o):
        return self._c("bits") & _int_of(o)

    def __or__(self, o):
        lo = o.t if type(o) is SymInt else o
        if type(o) is SymInt or type(o) is int:
            parts, const = T.lin_parts(self.t)
            k = const
            for _, c in parts:
                k |= c
            k &= -k
            if k > 1 and ENG.branch(T.b_in(lo, ((0, k - 1),))):
                return mkint(T.t_add(self.t, lo))
        return self._c("bits") | _int_of(o)

    def __ror__(self, o):
        return o | self._c("bits")

    def __rand__(self, o):
        return o & self._c("bits")

    def __rxor__(self, o):
        return o ^ self._c("bits")

    def __xor__(self, o):
        return self._c("bits") ^ _int_of(o)

    def __rshift__(self, o):
        if type(o) is int and o >= 0:
            return mkint(T.t_div(self.t, 1 << o))
        return self._c("bits") >> o

    def __lshift__(self, o):
        if type(o) is int and o >= 0:
            return mkint(T.t_scale(self.t, 1 << o))
        return self._c("bits") << o

    def __invert__(self):
        return mkint(T.t_add(-1, self.t, -1))

    def bit_length(self):
        return self._c("bits").bit_length()

    def is_integer(self):
        return True

    def __repr__(self):
        return repr(self._c("repr")) if ENG.active else f"<SymInt {T.show(self.t)}>"

    __str__ = __repr__

    def __format__(self, spec):
        return format(self._c("format"), spec)

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)


class SymFloat(_SymNum):
    """t/4."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: float)

    def _c(self, why="float"):
        return ENG.concretize(self.t, 80, why) / 4

    def __hash__(self):
        return hash(self._c())

    def __float__(self):
        return self._c()

    def __int__(self):
        return int(self._c())

    def __trunc__(self):
        return int(self._c())

    def is_integer(self):
        return bool(mkbool(T.b_eq(T.t_mod(self.t, 4), 0)))

    def __neg__(self):
        return SymFloat(T.t_scale(self.t, -1))

    def __abs__(self):
        return self if ENG.branch(T.b_le(0, self.t)) else -self

    def __repr__(self):
        return repr(self._c()) if ENG.active else f"<SymFloat {T.show(self.t)}/4>"

    __str__ = __repr__

    def __format__(self, spec):
        return format(self._c(), spec)


def _mk_floatop(name):
    def op(self, o):
        return getattr(self._c(), name)(o._c() if isinstance(o, (SymInt, SymFloat)) and type(o) in (SymInt, SymFloat) else o)

    return op


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    for _p in ("__", "__r"):
        setattr(SymFloat, f"{_p}{_n}__", _mk_floatop(f"{_p}{_n}__"))


# ---------------------------------------------------------------- strings


def mkstr(cs):
    """String from a sequence of code points / char terms."""
    cs = tuple(cs)
    for c in cs:
        if type(c) is not int:
            return SymStr(cs)
    return "".join(map(chr, cs))


def chars_of(s):
    if type(s) is SymStr:
        return s.fix()
    return tuple(map(ord, s))


def str_eq_term(a, b):
    """Formula for string equality."""
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return a == b
    if ta is not SymStr:
        a, b, ta, tb = b, a, tb, ta
    a._force()
    if tb is SymStr:
        b._force()
        if a is b:
            return True
        if a.n is None and b.n is None:
            return _cs_eq(a.cs, b.cs)
        na = len(a.cs) if a.n is None else a.n
        nb = len(b.cs) if b.n is None else b.n
        parts = [T.b_eq(na, nb)]
        if parts[0] is False:
            return False
        m = min(len(a.cs), len(b.cs))
        for i in range(m):
            longer = T.b_lt(i, na)
            parts.append(T.b_or(T.b_not(longer), T.b_eq(a.cs[i], b.cs[i])))
        # lengths beyond the shorter maximum are impossible when equal
        parts.append(T.b_le(na, m))
        parts.append(T.b_le(nb, m))
        return T.b_and(*parts)
    if a.n is None:
        return _cs_eq(a.cs, tuple(map(ord, b)))
    if len(b) > len(a.cs):
        return False
    return T.b_and(T.b_eq(a.n, len(b)), _cs_eq(a.cs[: len(b)], tuple(map(ord, b))))


def _cs_eq(x, y):
    if len(x) != len(y):
        return False
    parts = []
    for p, q in zip(x, y):
        e = T.b_eq(p, q)
        if e is False:
            return False
        parts.append(e)
    return T.b_and(*parts)


def str_lt_term(a, b, strict=True):
    x, y = chars_of(a), chars_of(b)
    n = min(len(x), len(y))
    r = len(x) < len(y) if strict else len(x) <= len(y)
    for i in range(n - 1, -1, -1):
        r = T.b_or(T.b_lt(x[i], y[i]), T.b_and(T.b_eq(x[i], y[i]), r))
    return r


def _isstr(x):
    return type(x) is str or type(x) is SymStr or isinstance(x, str)


class SymStr(Sym):
    """cs: code points / terms.  n: None (length is len(cs)) or a length term
    with len(cs) the maximum length.  thunk: deferred content."""

    __slots__ = ("cs", "n", "thunk")

    def __init__(self, cs, n=None, thunk=None):
        self.cs = cs
        self.n = n
        self.thunk = thunk

    __class__ = property(lambda self: str)

    def _force(self):
        if self.thunk is not None:
            f = self.thunk
            self.thunk = None
            r = f()
            if type(r) is SymStr:
                r._force()
                self.cs, self.n = r.cs, r.n
            else:
                self.cs, self.n = tuple(map(ord, r)), None

    def fix(self):
        """Fork the length; return the characters."""
        if self.thunk is not None:
            self._force()
        if self.n is not None:
            k = ENG.concretize(self.n, 64, "strlen")
            self.cs = self.cs[:k]
            self.n = None
        return self.cs

    def real(self, cap=64, why="str"):
        """Fork every character: a native str."""
        return "".join(chr(ENG.concretize(c, cap, why)) for c in self.fix())

    def length(self):
        if self.thunk is not None:
            self._force()
        return len(self.cs) if self.n is None else mkint(self.n)

    # -- protocol
    def __len__(self):
        return len(self.fix())

    def __bool__(self):
        if self.thunk is not None:
            self._force()
        if self.n is None:
            return len(self.cs) > 0
        return ENG.branch(T.b_lt(0, self.n))

    def __eq__(self, o):
        o = _pre(o)
        if not _isstr(o):
            return NotImplemented if foreign(o) else False
        return mkbool(str_eq_term(self, o))

    def __ne__(self, o):
        return _ne(self.__eq__(o))

    def __lt__(self, o):
        o = _pre(o)
        if not _isstr(o):
            return NotImplemented
        return mkbool(str_lt_term(self, o))

    def __le__(self, o):
        o = _pre(o)
        if not _isstr(o):
            return NotImplemented
        return mkbool(str_lt_term(self, o, False))

    def __gt__(self, o):
        o = _pre(o)
        if not _isstr(o):
            return NotImplemented
        return mkbool(str_lt_term(o, self))

    def __ge__(self, o):
        o = _pre(o)
        if not _isstr(o):
            return NotImplemented
        return mkbool(str_lt_term(o, self, False))

    def __hash__(self):
        return hash(self.real(why="hash-str"))

    def __repr__(self):
        if ENG.active:
            return repr(self.real(why="repr"))
        if self.thunk is not None:
            return "<SymStr ?>"
        return "<SymStr " + " ".join(chr(c) if type(c) is int else T.show(c) for c in self.cs) + ">"

    def __str__(self):
        if ENG.active:
            return self.real(why="str()")
        return self.__repr__()

    def __format__(self, spec):
        return format(self.real(why="format"), spec)

    def __iter__(self):
        for c in self.fix():
            yield mkstr((c,))

    def __reversed__(self):
        for c in reversed(self.fix()):
            yield mkstr((c,))

    def __getitem__(self, i):
        cs = self.fix()
        if type(i) is slice:
            i = slice(*[x if x is None else int(x) for x in (i.start, i.stop, i.step)])
            return mkstr(cs[i])
        if type(i) is SymInt:
            n = len(cs)
            if not ENG.branch(T.b_in(i.t, ((-n, n - 1),))):
                raise IndexError("string index out of range")
            i = i._c()
        elif not isinstance(i, int):
            raise TypeError("string indices must be integers, not " + type(i).__name__)
        try:
            return mkstr((cs[i],))
        except IndexError:
            raise IndexError("string index out of range") from None

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        o = _pre(o)
        if not _isstr(o):
            raise TypeError("'in <string>' requires string as left operand")
        x, y = self.fix(), chars_of(o)
        return mkbool(T.b_or(*[_cs_eq(x[i:i + len(y)], y) for i in range(len(x) - len(y) + 1)]))

    def __add__(self, o):
        o = _pre(o)
        if not _isstr(o):
            return NotImplemented
        if self.thunk is None and self.n is None and (type(o) is str or (o.thunk is None and o.n is None)):
            return SymStr(self.cs + chars_of(o))
        return SymStr((), None, lambda: SymStr(self.fix() + chars_of(o)))

    def __radd__(self, o):
        if not _isstr(o):
            return NotImplemented
        if self.thunk is None and self.n is None:
            return SymStr(chars_of(o) + self.cs)
        return SymStr((), None, lambda: SymStr(chars_of(o) + self.fix()))

    def __mul__(self, k):
        return mkstr(self.fix() * int(k))

    __rmul__ = __mul__

    def __mod__(self, o):
        return self.real(why="%") % o

    # -- searching
    def _find_all(self, y, start, end, rev=False):
        x = self.fix()
        rng = range(start, end - len(y) + 1)
        for i in reversed(rng) if rev else rng:
            if ENG.branch(_cs_eq(x[i:i + len(y)], y)):
                return i
        return -1

    def _span(self, start, end):
        n = len(self.fix())
        return slice(*[x if x is None else int(x) for x in (start, end)]).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        a, b = self._span(start, end)
        return self._find_all(chars_of(_pre(sub)), a, b)

    def rfind(self, sub, start=None, end=None):
        a, b = self._span(start, end)
        return self._find_all(chars_of(_pre(sub)), a, b, True)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        a, b = self._span(start, end)
        y = chars_of(_pre(sub))
        if not y:
            return max(0, b - a + 1)
        n = 0
        while True:
            i = self._find_all(y, a, b)
            if i < 0:
                return n
            n += 1
            a = i + len(y)

    def startswith(self, p, start=None, end=None):
        a, b = self._span(start, end)
        x = self.fix()[a:b]
        ps = p if isinstance(p, tuple) else (p,)
        out = []
        for q in ps:
            q = _pre(q)
            if not _isstr(q):
                raise TypeError("startswith first arg must be str or a tuple of str")
            y = chars_of(q)
            out.append(_cs_eq(x[: len(y)], y))
        return mkbool(T.b_or(*out))

    def endswith(self, p, start=None, end=None):
        a, b = self._span(start, end)
        x = self.fix()[a:b]
        ps = p if isinstance(p, tuple) else (p,)
        out = []
        for q in ps:
            q = _pre(q)
            if not _isstr(q):
                raise TypeError("endswith first arg must be str or a tuple of str")
            y = chars_of(q)
            out.append(_cs_eq(x[len(x) - len(y):], y) if len(y) <= len(x) else False)
        return mkbool(T.b_or(*out))

    def removeprefix(self, p):
        if self.startswith(p):
            return mkstr(self.fix()[len(chars_of(p)):])
        return self

    def removesuffix(self, p):
        y = chars_of(p)
        if y and self.endswith(p):
            return mkstr(self.fix()[: -len(y)])
        return self

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        cs = self.fix()
        maxsplit = int(maxsplit)
        if sep is None:
            out = []
            i, n = 0, len(cs)
            while i < n:
                while i < n and self._pred(cs[i], "isspace"):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and self._pred(cs[j - 1], "isspace"):
                        j -= 1
                    out.append(mkstr(cs[i:j]))
                    return out
                j = i
                while j < n and not self._pred(cs[j], "isspace"):
                    j += 1
                out.append(mkstr(cs[i:j]))
                i = j
            return out
        y = chars_of(_pre(sep))
        if not y:
            raise ValueError("empty separator")
        out = []
        a = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self._find_all(y, a, len(cs))
            if i < 0:
                break
            out.append(mkstr(cs[a:i]))
            a = i + len(y)
        out.append(mkstr(cs[a:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if sep is None:
            if maxsplit < 0:
                return self.split(None)
            return self.real(why="rsplit").rsplit(None, maxsplit)
        if maxsplit < 0 and len(chars_of(sep)) == 1:
            return self.split(sep)
        cs = self.fix()
        y = chars_of(_pre(sep))
        out = []
        b = len(cs)
        while maxsplit < 0 or len(out) < maxsplit:
            i = self._find_all(y, 0, b, True)
            if i < 0:
                break
            out.append(mkstr(cs[i + len(y):b]))
            b = i
        out.append(mkstr(cs[:b]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        cs = self.fix()
        if i < 0:
            return (self, "", "")
        return (mkstr(cs[:i]), sep, mkstr(cs[i + len(chars_of(sep)):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        cs = self.fix()
        if i < 0:
            return ("", "", self)
        return (mkstr(cs[:i]), sep, mkstr(cs[i + len(chars_of(sep)):]))

    def splitlines(self, keepends=False):
        out, cur = [], []
        cs = self.fix()
        i = 0
        key = "linebreak"
        while i < len(cs):
            c = cs[i]
            if ENG.branch(in_pred(c, key, lambda ch: len((ch + "x").splitlines()) == 2)):
                end = [c]
                if i + 1 < len(cs) and ENG.branch(T.b_and(T.b_eq(c, 13), T.b_eq(cs[i + 1], 10))):
                    end.append(cs[i + 1])
                    i += 1
                out.append(mkstr(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def replace(self, old, new, count=-1):
        cs = self.fix()
        x, y = chars_of(_pre(old)), chars_of(_pre(new))
        if not x:
            return self.real(why="replace").replace("", mkstr(y) if y else "", count)
        out = []
        i = 0
        k = 0
        while i < len(cs):
            if i + len(x) <= len(cs) and (count < 0 or k < count) and ENG.branch(_cs_eq(cs[i:i + len(x)], x)):
                out.extend(y)
                i += len(x)
                k += 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def join(self, it):
        sep = None
        parts = []
        for k, p in enumerate(it):
            p = _pre(p)
            if not _isstr(p):
                raise TypeError(f"sequence item {k}: expected str instance, {type(p).__name__} found")
            parts.append(p)
        me = self

        def build():
            s = me.fix()
            out = []
            for k, p in enumerate(parts):
                if k:
                    out.extend(s)
                out.extend(chars_of(p))
            return mkstr(out)

        if all(type(p) is str or (p.thunk is None and p.n is None) for p in parts):
            return build()
        return SymStr((), None, build)

    # -- stripping
    def _strip(self, chars, left, right):
        cs = self.fix()
        if chars is None:
            def test(c):
                return self._pred(c, "isspace")
        else:
            ys = chars_of(_pre(chars))

            def test(c):
                return ENG.branch(T.b_or(*[T.b_eq(c, y) for y in ys]))
        a, b = 0, len(cs)
        if left:
            while a < b and test(cs[a]):
                a += 1
        if right:
            while b > a and test(cs[b - 1]):
                b -= 1
        return mkstr(cs[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    # -- predicates
    def _pred(self, c, name):
        return ENG.branch(in_pred(c, name, lambda ch: getattr(ch, name)()))

    def _all_pred(self, name):
        cs = self.fix()
        if not cs:
            return False
        return mkbool(T.b_and(*[in_pred(c, name, lambda ch: getattr(ch, name)()) for c in cs]))

    def isspace(self):
        return self._all_pred("isspace")

    def isdigit(self):
        return self._all_pred("isdigit")

    def isdecimal(self):
        return self._all_pred("isdecimal")

    def isnumeric(self):
        return self._all_pred("isnumeric")

    def isalpha(self):
        return self._all_pred("isalpha")

    def isalnum(self):
        return self._all_pred("isalnum")

    def isprintable(self):
        return True if not self.fix() else self._all_pred("isprintable")

    def isascii(self):
        return mkbool(T.b_and(*[T.b_in(c, ((0, 127),)) for c in self.fix()]))

    def isidentifier(self):
        cs = self.fix()
        if not cs:
            return False
        out = [in_pred(cs[0], "isidentifier", str.isidentifier)]
        out += [in_pred(c, "isidentcont", lambda ch: ("a" + ch).isidentifier()) for c in cs[1:]]
        return mkbool(T.b_and(*out))

    # -- case
    def _map(self, key, fn):
        out = []
        for c in self.fix():
            if type(c) is int:
                out.extend(ord(x) for x in fn(chr(c)))
                continue
            groups, multi = char_map(c, key, fn)
            if multi and ENG.branch(T.b_in(c, multi)):
                v = ENG.concretize(c, 64, "case")
                out.extend(ord(x) for x in fn(chr(v)))
                continue
            t = c
            for d, rs in groups:
                if d:
                    t = T.t_ite(T.b_in(c, rs), T.t_add(c, d), t)
            out.append(t)
        return mkstr(out)

    def lower(self):
        return self._map("lower", str.lower)

    def upper(self):
        return self._map("upper", str.upper)

    def casefold(self):
        return self._map("casefold", str.casefold)

    def zfill(self, n):
        cs = self.fix()
        n = int(n)
        if len(cs) >= n:
            return self
        pad = (48,) * (n - len(cs))
        if cs and ENG.branch(T.b_in(cs[0], ((43, 43), (45, 45)))):
            return mkstr(cs[:1] + pad + cs[1:])
        return mkstr(pad + cs)

    def ljust(self, n, fill=" "):
        cs = self.fix()
        return mkstr(cs + (ord(fill),) * max(0, int(n) - len(cs)))

    def rjust(self, n, fill=" "):
        cs = self.fix()
        return mkstr((ord(fill),) * max(0, int(n) - len(cs)) + cs)

    def translate(self, table):
        out = []
        for c in self.fix():
            if type(c) is int:
                r = table.get(c, c) if hasattr(table, "get") else table[c]
            else:
                r = c
                for k in table:
                    if ENG.branch(T.b_eq(c, k)):
                        r = table[k]
                        break
            if r is None:
                continue
            out.extend((r,) if type(r) is int or not _isstr(r) else chars_of(r))
        return mkstr(out)

    def encode(self, encoding="utf-8", errors="strict"):
        return sym_encode(self, encoding, errors)

    def format(self, *a, **k):
        return sym_format(self.real(why="format"), a, k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.real(why="str." + name), name)


# ---------------------------------------------------------------- conversions


def int_of_str(s, base=10):
    """int(text) with Python's grammar, value as a linear term."""
    if base not in (10, 16):
        return int(s.real(why="int-base"), base)
    cs = s.fix()
    if base == 16:
        s = s.strip()
        return _int16(chars_of(s))
    a, b = 0, len(cs)
    isp = lambda c: ENG.branch(in_pred(c, "intspace", lambda x: x.isspace() and not "\x1c" <= x <= "\x1f"))
    while a < b and isp(cs[a]):
        a += 1
    while b > a and isp(cs[b - 1]):
        b -= 1
    neg = False
    body = cs[a:b]

    def bad():
        raise ValueError("invalid literal for int() with base 10")

    plus = False
    if body and ENG.branch(T.b_eq(body[0], 45)):
        neg = True
        body = body[1:]
    elif body and ENG.branch(T.b_eq(body[0], 43)):
        plus = True
        body = body[1:]
    if not body:
        bad()
    val = 0
    nd = 0
    prev_us = True
    ascii_only = not plus
    digits = []
    for c in body:
        if ENG.branch(T.b_eq(c, 95)):
            if prev_us:
                bad()
            prev_us = True
            ascii_only = False
            continue
        d = digit_value(c)
        if d is None:
            bad()
        if type(c) is int and not 48 <= c <= 57:
            ascii_only = False
        elif type(c) is not int and ENG.simp(T.b_in(c, ASCII_DIGIT)) is not True:
            ascii_only = False
        prev_us = False
        val = T.t_add(T.t_scale(val, 10), d)
        digits.append(c)
        nd += 1
    if prev_us:
        bad()
    if nd > 4300:
        raise ValueError("Exceeds the limit (4300 digits) for integer string conversion")
    if neg:
        val = T.t_scale(val, -1)
    if type(val) is int:
        return val
    return SymInt(val, (neg, tuple(digits)) if ascii_only else None)


_DIGIT_BLOCKS = ((48, 57), (0x660, 0x669), (0xFF10, 0xFF19))


def digit_value(c):
    """Term of the decimal value of a character, None when not decimal."""
    if type(c) is int:
        ch = chr(c)
        if not ch.isdecimal():
            return None
        import unicodedata

        return unicodedata.decimal(ch)
    if not ENG.branch(in_pred(c, "isdecimal", str.isdecimal)):
        return None
    for lo, hi in _DIGIT_BLOCKS:
        if ENG.branch(T.b_in(c, ((lo, hi),))):
            return T.t_add(c, -lo)
    raise Cut("digit-block")


def _int16(cs):
    if not cs:
        raise ValueError("invalid literal for int() with base 16")
    val = 0
    for k, c in enumerate(cs):
        if type(c) is int:
            val = T.t_add(T.t_scale(val, 16), int(chr(c), 16))
            continue
        if ENG.branch(T.b_in(c, ((48, 57),))):
            d = T.t_add(c, -48)
        elif ENG.branch(T.b_in(c, ((65, 70),))):
            d = T.t_add(c, -55)
        elif ENG.branch(T.b_in(c, ((97, 102),))):
            d = T.t_add(c, -87)
        else:
            # signs, underscores, prefixes, exotic digits: decide natively
            return int("".join(chr(ENG.concretize(x, 64, "int16")) for x in cs), 16)
        val = T.t_add(T.t_scale(val, 16), d)
    return mkint(val)


def define(base, value_term_fn, lo, hi, constraint):
    """A fresh functional variable: value_term_fn(model) is its value."""
    v = T.var(ENG.fresh(base), ((lo, hi),))
    val = value_term_fn(ENG.model)
    ENG.model = dict(ENG.model)
    ENG.model[v.a] = val
    c = constraint(v)
    return v, c


def str_of_int(x):
    """str(n) as a SymStr (deferred)."""
    if type(x) is int:
        return str(x)

    def build():
        if x.src is not None:
            neg, ds = x.src
            if len(ds) == 1 and (not neg or not ENG.branch(T.b_eq(ds[0], 48))):
                return mkstr(((45,) if neg else ()) + ds)
            if len(ds) > 1 and not ENG.branch(T.b_eq(ds[0], 48)):
                return mkstr(((45,) if neg else ()) + ds)
        t = x.t
        key = ("digits", t)
        r = ENG.memo.get(key)
        if r is not None:
            return r
        if type(t) is not int and t.op == "var" and T.rs_size(ENG.domain(t)) <= 12:
            r = str(ENG.concretize(t))
            ENG.memo[key] = r
            return r
        neg = ENG.branch(T.b_lt(t, 0))
        m = T.t_scale(t, -1) if neg else t
        nd = 1
        while not ENG.branch(T.b_lt(m, 10 ** nd)):
            nd += 1
            if nd > 40:
                raise Cut("digits")
        if nd == 1:
            ds = [T.t_add(m, 48)]
        else:
            ds = []
            vs = []
            for k in range(nd - 1, -1, -1):
                name = ENG.fresh("dig")
                v = T.var(name, ((1 if k == nd - 1 else 0, 9),))
                vs.append((v, k))
            val = T.ev(m, ENG.model)
            ENG.model = dict(ENG.model)
            for v, k in vs:
                ENG.model[v.a] = (val // 10 ** k) % 10
            s = m
            for v, k in vs:
                s = T.t_add(s, T.t_scale(v, 10 ** k), -1)
            ENG._assert(T.b_eq(s, 0))
            ds = [T.t_add(v, 48) for v, _ in vs]
        r = mkstr(([45] if neg else []) + ds)
        ENG.memo[key] = r
        return r

    return SymStr((), None, build)


def lazy_str(fn):
    return SymStr((), None, fn)


# ---------------------------------------------------------------- bytes


class SymBytes(Sym):
    __slots__ = ("bs",)

    def __init__(self, bs):
        self.bs = tuple(bs)

    __class__ = property(lambda self: bytes)

    def decode(self, encoding="utf-8", errors="strict"):
        return sym_decode(self, encoding, errors)

    def __len__(self):
        return len(self.bs)

    def __bool__(self):
        return bool(self.bs)

    def __eq__(self, o):
        if isinstance(o, bytes):
            return mkbool(_cs_eq(self.bs, tuple(o.bs if type(o) is SymBytes else o)))
        return False

    def __iter__(self):
        return iter([mkint(b) for b in self.bs])

    def __getitem__(self, i):
        if type(i) is slice:
            return SymBytes(self.bs[i])
        return mkint(self.bs[i])

    def __add__(self, o):
        return SymBytes(self.bs + tuple(o.bs if type(o) is SymBytes else o))

    def __radd__(self, o):
        return SymBytes(tuple(o) + self.bs)

    def __hash__(self):
        return hash(self.real())

    def real(self):
        return bytes(ENG.concretize(b, 64, "bytes") for b in self.bs)

    def __bytes__(self):
        return self.real()


def _norm_enc(e):
    return e.lower().replace("_", "-").replace("utf8", "utf-8").replace("latin1", "latin-1").replace("iso-8859-1", "latin-1")


def sym_encode(s, encoding, errors):
    e = _norm_enc(encoding)
    cs = s.fix()
    if e in ("latin-1", "ascii"):
        lim = 255 if e == "latin-1" else 127
        out = []
        for i, c in enumerate(cs):
            if ENG.branch(T.b_le(c, lim)):
                out.append(c)
            elif errors == "backslashreplace":
                v = SymInt(c) if type(c) is not int else c
                out.extend(_hex_escape(c))
            elif errors == "ignore":
                pass
            elif errors == "replace":
                out.append(63)
            else:
                raise UnicodeEncodeError(e, "?" * len(cs), i, i + 1, "ordinal not in range")
        return SymBytes(out)
    if e in ("utf-8",):
        out = []
        for i, c in enumerate(cs):
            if ENG.branch(T.b_le(c, 0x7F)):
                out.append(c)
            elif ENG.branch(T.b_le(c, 0x7FF)):
                out.append(T.t_add(0xC0, T.t_div(c, 64)))
                out.append(T.t_add(0x80, T.t_mod(c, 64)))
            elif ENG.branch(T.b_in(c, ((0xD800, 0xDFFF),))) and errors != "surrogatepass":
                raise UnicodeEncodeError("utf-8", "?" * len(cs), i, i + 1, "surrogates not allowed")
            elif ENG.branch(T.b_le(c, 0xFFFF)):
                out.append(T.t_add(0xE0, T.t_div(c, 4096)))
                out.append(T.t_add(0x80, T.t_mod(T.t_div(c, 64), 64)))
                out.append(T.t_add(0x80, T.t_mod(c, 64)))
            else:
                out.append(T.t_add(0xF0, T.t_div(c, 262144)))
                out.append(T.t_add(0x80, T.t_mod(T.t_div(c, 4096), 64)))
                out.append(T.t_add(0x80, T.t_mod(T.t_div(c, 64), 64)))
                out.append(T.t_add(0x80, T.t_mod(c, 64)))
        return SymBytes(out)
    if e in ("utf-16", "utf-16le", "utf-16-le", "utf-16be", "utf-16-be"):
        return _Utf16(cs, errors)
    return s.real(why="encode").encode(encoding, errors)


def _hex_escape(c):
    if type(c) is not int:
        c = ENG.concretize(c, 64, "hexescape")
    return list(chr(c).encode("ascii", "backslashreplace"))


class _Utf16(Sym):
    """Result of .encode('utf-16', ...): only decoded again."""

    __slots__ = ("cs", "errors")

    def __init__(self, cs, errors):
        self.cs = cs
        self.errors = errors
        if errors != "surrogatepass":
            for i, c in enumerate(cs):
                if ENG.branch(T.b_in(c, ((0xD800, 0xDFFF),))):
                    raise UnicodeEncodeError("utf-16", "?" * len(cs), i, i + 1, "surrogates not allowed")

    __class__ = property(lambda self: bytes)

    def decode(self, encoding="utf-8", errors="strict"):
        if not _norm_enc(encoding).startswith("utf-16"):
            return "".join(chr(ENG.concretize(c)) for c in self.cs).encode("utf-16", self.errors).decode(encoding, errors)
        out = []
        i = 0
        cs = self.cs
        while i < len(cs):
            c = cs[i]
            if ENG.branch(T.b_in(c, ((0xD800, 0xDBFF),))):
                if i + 1 < len(cs) and ENG.branch(T.b_in(cs[i + 1], ((0xDC00, 0xDFFF),))):
                    out.append(T.t_add(0x10000, T.t_add(
                        T.t_scale(T.t_add(c, -0xD800), 1024), T.t_add(cs[i + 1], -0xDC00))))
                    i += 2
                    continue
                if errors != "surrogatepass":
                    raise UnicodeDecodeError("utf-16", b"", 0, 1, "illegal encoding")
            elif ENG.branch(T.b_in(c, ((0xDC00, 0xDFFF),))) and errors != "surrogatepass":
                raise UnicodeDecodeError("utf-16", b"", 0, 1, "illegal encoding")
            out.append(c)
            i += 1
        return mkstr(out)


def sym_decode(b, encoding, errors):
    e = _norm_enc(encoding)
    if e == "latin-1":
        return mkstr(b.bs)
    if e == "ascii":
        for i, x in enumerate(b.bs):
            if not ENG.branch(T.b_le(x, 127)):
                raise UnicodeDecodeError("ascii", b"", 0, 1, "ordinal not in range(128)")
        return mkstr(b.bs)
    if e in ("unicode-escape",):
        return unicode_escape(b.bs, errors)
    return b.real().decode(encoding, errors)


_SIMPLE = {ord("\\"): 92, ord("'"): 39, ord('"'): 34, ord("b"): 8, ord("f"): 12,
           ord("t"): 9, ord("n"): 10, ord("r"): 13, ord("v"): 11, ord("a"): 7}


def _hexval(c):
    if type(c) is int:
        ch = chr(c)
        return int(ch, 16) if ch in "0123456789abcdefABCDEF" else None
    if ENG.branch(T.b_in(c, ((48, 57),))):
        return T.t_add(c, -48)
    if ENG.branch(T.b_in(c, ((65, 70),))):
        return T.t_add(c, -55)
    if ENG.branch(T.b_in(c, ((97, 102),))):
        return T.t_add(c, -87)
    return None


def unicode_escape(bs, errors="strict"):
    """bytes.decode('unicode-escape')."""
    if errors != "strict":
        return bytes(ENG.concretize(x) for x in bs).decode("unicode-escape", errors)

    def fail(msg):
        raise UnicodeDecodeError("unicodeescape", b"?", 0, 1, msg)

    out = []
    i, n = 0, len(bs)
    while i < n:
        c = bs[i]
        if not ENG.branch(T.b_eq(c, 92)):
            out.append(c)
            i += 1
            continue
        i += 1
        if i >= n:
            fail("\\ at end of string")
        c = bs[i]
        done = False
        if ENG.branch(T.b_eq(c, 10)):
            i += 1
            continue
        for k, v in _SIMPLE.items():
            if ENG.branch(T.b_eq(c, k)):
                out.append(v)
                i += 1
                done = True
                break
        if done:
            continue
        if ENG.branch(T.b_in(c, ((48, 55),))):
            v = T.t_add(c, -48)
            i += 1
            k = 1
            while k < 3 and i < n and ENG.branch(T.b_in(bs[i], ((48, 55),))):
                v = T.t_add(T.t_scale(v, 8), T.t_add(bs[i], -48))
                i += 1
                k += 1
            out.append(v)
            continue
        m = 0
        for ch, cnt in (("x", 2), ("u", 4), ("U", 8)):
            if ENG.branch(T.b_eq(c, ord(ch))):
                m = cnt
                break
        if m:
            i += 1
            v = 0
            for _ in range(m):
                d = _hexval(bs[i]) if i < n else None
                if d is None:
                    fail("truncated escape")
                v = T.t_add(T.t_scale(v, 16), d)
                i += 1
            if m == 8 and not ENG.branch(T.b_le(v, 0x10FFFF)):
                fail("illegal Unicode character")
            out.append(v)
            continue
        if ENG.branch(T.b_eq(c, ord("N"))):
            if i + 1 < n and ENG.branch(T.b_eq(bs[i + 1], ord("{"))):
                rest = bytes(ENG.concretize(x, 64, "\\N") for x in bs[i - 1:])
                return mkstr(out) + rest.decode("unicode-escape")
            fail("malformed \\N character escape")
        out.append(92)
        out.append(c)
        i += 1
    return mkstr(out)


# ---------------------------------------------------------------- formatting


def fmt_piece(v, conv, spec):
    """One {field} of an f-string / format call -> str or SymStr."""
    if conv == "r":
        v = sym_repr(v)
    elif conv == "s":
        v = sym_str(v)
    elif conv == "a":
        v = lazy_str(lambda v=v: ascii(realize(v)))
    if not spec:
        return sym_str(v)
    v = _pre(v)
    if isinstance(v, Sym):
        if type(v) is SymInt:
            r = _hex_spec(v, spec)
            if r is not None:
                return r
        return lazy_str(lambda: format(realize(v), spec if type(spec) is str else realize(spec)))
    return format(v, spec if type(spec) is str else realize(spec))


def _hex_spec(v, spec):
    if spec in ("d", "n", "-d"):
        return str_of_int(v)
    if spec in ("+d", "+", " d", " "):
        return lazy_str(lambda: sym_add_sign(v, spec[0]))
    if spec in ("04x", "04X", "02x", "02X", "x", "X"):
        width = int(spec[:-1] or 0)
        base = 87 if spec[-1] == "x" else 55

        def build():
            t = v.t
            if not ENG.branch(T.b_le(0, t)):
                return format(v._c(), spec)
            nd = max(1, width)
            while not ENG.branch(T.b_lt(t, 16 ** nd)):
                nd += 1
            if width == 0 or nd > width:
                pass
            ds = []
            for k in range(nd - 1, -1, -1):
                d = T.t_mod(T.t_div(t, 16 ** k), 16)
                if type(d) is int:
                    ds.append(ord(format(d, spec[-1])))
                else:
                    ds.append(T.t_ite(T.b_le(d, 9), T.t_add(d, 48), T.t_add(d, base)))
            return mkstr(ds)

        if width == 0:
            return None
        return lazy_str(build)
    return None


def sym_add_sign(v, sign):
    s = sym_str(v)
    return s if ENG.branch(T.b_lt(v.t, 0)) else sign + s


def sym_str(v):
    """str(v) without forking where possible."""
    v0 = v
    v = _pre(v) if type(v) in _LAZY else v
    t = type(v)
    if t is str or t is SymStr:
        return v
    if t is SymInt:
        return str_of_int(v)
    if t is SymFloat:
        return lazy_str(lambda: str(v._c()))
    if t is SymBool:
        return lazy_str(lambda: str(bool(v)))
    if t in (int, float, bool, type(None)):
        return str(v)
    if isinstance(v, BaseException) or hasattr(t, "__str__") and t.__str__ is not object.__str__ and t not in (list, tuple, dict):
        f = t.__str__
        import types
        if isinstance(f, types.FunctionType):
            return f(v)
        if isinstance(v, BaseException):
            if f is BaseException.__str__ or f is Exception.__str__:
                if len(v.args) == 0:
                    return ""
                if len(v.args) == 1:
                    return sym_str(v.args[0])
                return lazy_str(lambda: str(tuple(realize(x) for x in v.args)))
            if f is KeyError.__str__ and len(v.args) == 1:
                return sym_repr(v.args[0])
        return str(v)
    return sym_repr(v)


def sym_repr(v):
    t = type(v)
    if t in (int, float, bool, type(None), str):
        return repr(v)
    f = t.__repr__
    import types
    if isinstance(f, types.FunctionType) and t not in _LAZY and not issubclass(t, Sym):
        return f(v)
    if t is SymStr:
        return lazy_str(lambda: repr_of_str(v))
    if t is SymInt:
        return str_of_int(v)
    if isinstance(v, Sym) or t in (list, tuple, dict) or t in _LAZY:
        return lazy_str(lambda: repr(realize(v)))
    return repr(v)


_PLAIN = None


def repr_of_str(v):
    """repr(), forking on which characters are escaped."""
    global _PLAIN
    if _PLAIN is None:
        from .chars import ALL_LIST

        _PLAIN = T.rs_vals([c for c in ALL_LIST if chr(c).isprintable() and c not in (34, 39, 92)])
    cs = v.fix()
    syms = [c for c in cs if type(c) is not int]
    has = lambda q: q in cs or bool(syms) and ENG.branch(T.b_or(*[T.b_eq(c, q) for c in syms]))
    q = 34 if has(39) and not has(34) else 39
    out = [q]
    for c in cs:
        if type(c) is not int:
            if ENG.branch(T.b_in(c, _PLAIN)):
                out.append(c)
                continue
            c = ENG.concretize(c, 128, "repr")
        if c in (q, 92):
            out += [92, c]
        elif c in (34, 39):
            out.append(c)
        else:
            out += map(ord, repr(chr(c))[1:-1])
    out.append(q)
    return mkstr(tuple(out))


def sym_format(fmt, a, k):
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if spec and "{" in spec:
            return fmt.format(*[realize(x) for x in a], **{p: realize(q) for p, q in k.items()})
        head = field.split(".")[0].split("[")[0]
        if head == "":
            obj = a[auto]
            auto += 1
        elif head.isdigit():
            obj = a[int(head)]
        else:
            obj = k[head]
        if head != field:
            import _string

            _, rest = _string.formatter_field_name_split(field)
            for is_attr, i in rest:
                obj = getattr(obj, i) if is_attr else obj[i]
        out.append(fmt_piece(obj, conv, spec))
    return concat(out)


def concat(parts):
    if all(type(p) is str for p in parts):
        return "".join(parts)
    if all(type(p) is str or (type(p) is SymStr and p.thunk is None and p.n is None) for p in parts):
        out = []
        for p in parts:
            out.extend(chars_of(p))
        return mkstr(out)

    def build():
        out = []
        for p in parts:
            out.extend(chars_of(p))
        return mkstr(out)

    return SymStr((), None, build)


_REALIZERS = {}


def realize(v):
    """Fork down to a native value (deep)."""
    t = type(v)
    if t is SymStr:
        return v.real(why="realize")
    if t is SymInt or t is SymFloat:
        return v._c("realize")
    if t is SymBool:
        return bool(v)
    if t is SymBytes:
        return v.real()
    r = _REALIZERS.get(t)
    if r is not None:
        return r(v)
    if t is list:
        return [realize(x) for x in v]
    if t is tuple:
        return tuple(realize(x) for x in v)
    if t is dict:
        return {realize(k): realize(x) for k, x in v.items()}
    if t is slice:
        return slice(realize(v.start), realize(v.stop), realize(v.step))
    return v
