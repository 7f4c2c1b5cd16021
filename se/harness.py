"""Scenario runs: symbolic (SymGen) and concrete (ConGen) input generators."""
from __future__ import annotations

import hashlib
import json
import random
import signal
import sys
import traceback

from . import lazy as L
from . import terms as T
from . import values as V
from .chars import ALPHABET
from .engine import ENG, Cut, Infeasible, PathEnd, PropertyFailed
from .lazy import LazyJSON, Spec
from .values import SymBool, SymFloat, SymInt, SymStr, bt, mkbool

ABC = T.rs_norm([(97, 122)])


class Violation(BaseException):
    """A property assertion failed in a native run."""

    def __init__(self, label):
        super().__init__(label)
        self.label = label


class Hang(BaseException):
    """A run used more CPU time than any run of a scenario needs."""


NATIVE_S = 8.0  # a native run takes milliseconds
SYMBOLIC_S = 25.0


def _hang(signum, frame):
    raise Hang()


def limit(seconds):
    """Start (or, with 0, end) the CPU-time limit of one run; main thread only."""
    if seconds:
        signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 1.0 if seconds else 0.0)


class Discard(BaseException):
    """A native run falls outside the scenario's assumptions."""


class Preempt:
    """Within: before the nth line of library code, run another function once.
    Of each line, only the first `each` executions count."""

    def __init__(self, n, fn, each=2):
        self.n = n
        self.fn = fn
        self.each = each
        self.seen = {}
        self.done = False

    def _line(self, frame, event, arg):
        if event == "line" and not self.done:
            k = frame.f_code, frame.f_lineno
            c = self.seen.get(k, 0)
            if c == self.each:
                return self._line
            self.seen[k] = c + 1
            if self.n == 0:
                self.done = True
                sys.settrace(None)
                self.fn()
                return None
            self.n -= 1
        return self._line

    def _call(self, frame, event, arg):
        f = frame.f_code.co_filename
        if self.done or "/jsonpath/" not in f:
            return None
        return self._line

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class SymGen:
    native = False
    Spec = Spec
    ALPHABET = ALPHABET
    ABC = ABC

    def __init__(self):
        self.out = []
        self.nodes = {}

    def ranges(self, *pairs):
        return T.rs_norm(pairs)

    def minus(self, base, chars):
        return T.rs_and(base, T.rs_not(T.rs_vals([ord(c) for c in chars])))

    def int(self, name, lo, hi):
        return V.mkint(lo) if lo == hi else SymInt(T.var(name, ((lo, hi),)))

    def str(self, name, lo, hi, alpha=ALPHABET):
        return L.sym_str_of(L.str_vars(name, lo, hi, alpha))

    def choice(self, name, seq):
        if len(seq) == 1:
            return seq[0]
        i = ENG.concretize(T.var(name, ((0, len(seq) - 1),)), 4096, "choice")
        return seq[i]

    def flag(self, name):
        return bool(ENG.concretize(T.var(name, ((0, 1),)), 2, "flag"))

    def count(self, name, lo, hi):
        """A concrete integer chosen by forking."""
        return ENG.concretize(T.var(name, ((lo, hi),)), 4096, "count")

    def json(self, name, spec):
        node = self.nodes.get(name)
        if node is None:
            node = self.nodes[name] = L.Node(name, spec)
        return LazyJSON(node)

    def assume(self, c):
        ENG.assume(bt(c))

    def require(self, c, label):
        ENG.require(bt(c), label)

    def fail(self, label):
        ENG.require(False, label)

    def eq(self, a, b):
        """JSON equality (deep; a boolean is not a number)."""
        return mkbool(L.eq_term(a, b, True))

    def all_eq(self, xs, ys):
        """Two sequences of JSON values are equal, element by element."""
        return mkbool(L.eq_term(list(xs), list(ys), True))

    def same(self, a, b):
        """The same object: containers by identity, scalars by position/value."""
        if type(a) is LazyJSON:
            if type(b) is LazyJSON:
                if a is b:
                    return True
            a = a._deref()
        if type(b) is LazyJSON:
            b = b._deref()
        if a is b:
            return True
        if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
            return False
        return mkbool(L.eq_term(a, b, True))

    def either(self, *cs):
        return mkbool(T.b_or(*[bt(c) for c in cs]))

    def both(self, *cs):
        return mkbool(T.b_and(*[bt(c) for c in cs]))

    def implies(self, a, b):
        return mkbool(T.b_or(T.b_not(bt(a)), bt(b)))

    def neg(self, a):
        return mkbool(T.b_not(bt(a)))

    def trace(self, v):
        self.out.append(v)

    def copy(self, v):
        from .hooks import sym_deepcopy

        return sym_deepcopy(v, {})

    def realize(self, v):
        return V.realize(v)

    def text(self, v):
        """str(v) must work; the text itself."""
        return V.sym_str(v)

    def json_text(self, v):
        from .texts import JsonText

        return JsonText(v)

    def json_file(self, v):
        from .texts import JsonFile

        return JsonFile(v)

    def file(self, name):
        """A file name for a command line."""
        from .cli import Path

        return Path(name)

    def cli(self, main, argv, stdin=("text", ""), files=None):
        """Run a command; contents are ("json", value), ("text", str) or ("bytes", bytes)."""
        from . import cli

        return cli.run_symbolic(main, argv, stdin, files or {})

    def pristine(self):
        """Put the module-level state of the library back to what it was when
        the library had just been imported."""
        if self.snapshot is not None:
            self.snapshot.restore()

    def preempted(self, n, fn, each=2):
        return Preempt(n, fn, each)

    def script(self, module):
        """A function that runs a module as a script."""
        from . import explore

        return lambda: explore.WORLD.pkg.run(module)

    def content_file(self, content, mode="rb"):
        from .cli import InFile

        return InFile(content, mode, "doc")

    def written(self, out):
        """("ok", value, keywords of the dump) of one JSON text, or ("err", why)."""
        from .cli import Dump
        from .texts import JsonText

        docs = [x for x in out if type(x) in (Dump, JsonText)]
        rest = [x for x in out if type(x) not in (Dump, JsonText)]
        if len(docs) == 1 and all(type(x) is str and not x.strip() for x in rest):
            return "ok", docs[0].v, dict(docs[0].kw)
        if docs:
            return "err", "more than one JSON text", None
        from .hooks import m_json_loads

        t = self.joined(out)
        try:
            return "ok", m_json_loads(t), None
        except ValueError as e:
            return "err", "not JSON", None

    def serialised(self, v, out, want):
        return self.eq(v, want)

    def joined(self, out):
        out = [x for x in out if type(x) is not str or x]
        if not out:
            return ""
        r = out[0]
        for x in out[1:]:
            r = V.add(r, x) if hasattr(V, "add") else r + x
        return r


class ConGen:
    native = True
    Spec = Spec
    ALPHABET = ALPHABET
    ABC = ABC

    def __init__(self, model):
        self.m = model
        self.out = []
        self.inputs = {}

    def _log(self, name, v):
        try:
            self.inputs.setdefault(name, repr(v))
        except Exception:
            pass
        return v

    ranges = SymGen.ranges
    minus = SymGen.minus

    def _ev(self, v):
        return T.ev(v, self.m)

    def int(self, name, lo, hi):
        return lo if lo == hi else self._log(name, self._ev(T.var(name, ((lo, hi),))))

    def str(self, name, lo, hi, alpha=ALPHABET):
        return self._log(name, L.native_str(L.str_vars(name, lo, hi, alpha), self.m))

    def choice(self, name, seq):
        if len(seq) == 1:
            return seq[0]
        v = seq[self._ev(T.var(name, ((0, len(seq) - 1),)))]
        self._log(name, v)
        return v

    def flag(self, name):
        return self._log(name, bool(self._ev(T.var(name, ((0, 1),)))))

    def count(self, name, lo, hi):
        return self._log(name, self._ev(T.var(name, ((lo, hi),))))

    def json(self, name, spec):
        return self._log(name, L.native_of_node(name, spec, self.m))

    def assume(self, c):
        if not c:
            raise Discard()

    def require(self, c, label):
        if not c:
            raise Violation(label)

    def fail(self, label):
        raise Violation(label)

    def eq(self, a, b):
        return native_eq(a, b)

    def all_eq(self, xs, ys):
        return native_eq(list(xs), list(ys))

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
            return False
        return native_eq(a, b)

    def either(self, *cs):
        return any(cs)

    def both(self, *cs):
        return all(cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def neg(self, a):
        return not a

    def trace(self, v):
        self.out.append(v)

    def copy(self, v):
        import copy

        return copy.deepcopy(v)

    def realize(self, v):
        return v

    def text(self, v):
        return str(v)

    def json_text(self, v):
        return json.dumps(v)

    def json_file(self, v):
        import io

        return io.StringIO(json.dumps(v))

    file = SymGen.file

    def cli(self, main, argv, stdin=("text", ""), files=None):
        from . import cli

        return cli.run_native(main, argv, stdin, files or {})

    def pristine(self):
        """Put the module-level state of the library back to what it was when
        the library had just been imported."""
        if self.snapshot is not None:
            self.snapshot.restore()

    def preempted(self, n, fn, each=2):
        return Preempt(n, fn, each)

    def script(self, module):
        import runpy

        return lambda: runpy.run_module(module, run_name="__main__")

    def content_file(self, content, mode="rb"):
        import io
        from .cli import _bytes

        b = io.BytesIO(_bytes(content))
        return b if "b" in mode else io.TextIOWrapper(b, "utf-8")

    def written(self, out):
        try:
            v = json.loads(out)
        except ValueError:
            return "err", "not JSON", None
        return "ok", v, {"indent": 2 if "\n" in out.strip() else None}

    def joined(self, out):
        return out

    def serialised(self, v, out, want):
        """out is a JSON text of want, members in order."""
        def form(t):
            return repr(json.loads(t, object_pairs_hook=lambda ps: ("object", ps)))

        return form(out) == form(json.dumps(want))


def native_eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(native_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and native_eq(v, b[k]) for k, v in a.items())
    if type(a) is not type(b) and not (isinstance(a, str) and isinstance(b, str)):
        return False
    return a == b


def canon(v):
    """Comparable form of a trace value."""
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {"{}": [[canon(k), canon(x)] for k, x in v.items()]}
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, float):
        return ["f", v]
    if isinstance(v, int):
        return v
    if isinstance(v, BaseException):
        return type(v).__name__
    return type(v).__name__


class Scenario:
    def __init__(self, name, fn, tier="quick", weight=1.0, doc="", bounds=""):
        self.name = name
        self.fn = fn
        self.tier = tier
        self.weight = weight
        self.doc = doc or (fn.__doc__ or "").strip()
        self.bounds = bounds


class PathResult:
    __slots__ = ("status", "new", "failures", "error", "model", "out", "ndec")


def run_symbolic(fn, lib, prefix, model, snapshot=None):
    if snapshot is not None:
        snapshot.restore()
    ENG.reset(prefix, model)
    ENG.active = True
    g = SymGen()
    g.snapshot = snapshot
    r = PathResult()
    r.error = None
    try:
        limit(SYMBOLIC_S)
        fn(g, lib)
        limit(0)
        r.status = "ok"
    except Hang:
        r.status = "cut"
        r.error = "time"
    except Infeasible:
        r.status = "infeasible"
    except Cut as e:
        r.status = "cut"
        r.error = str(e)
    except PropertyFailed:
        r.status = "failed"
    except PathEnd:
        r.status = "cut"
        r.error = "pathend"
    except RecursionError:
        r.status = "cut"
        r.error = "recursion"
    except MemoryError:
        r.status = "cut"
        r.error = "memory"
    except Exception as e:  # raised by the code under test or the engine
        r.status = "exc"
        r.error = f"{type(e).__name__}: {_safe(e)}"
        r.error += " @ " + _where(e)
    finally:
        limit(0)
        ENG.active = False
    r.new = ENG.new
    r.failures = ENG.failures
    r.model = ENG.model
    r.ndec = len(ENG.trace)
    try:
        r.out = canon(L.under_model(g.out, ENG.model))
    except Exception as e:
        r.out = ["untraceable", type(e).__name__]
    return r


def _safe(e):
    try:
        return " ".join(str(a) for a in e.args)[:200]
    except BaseException:
        return "?"


def _where(e):
    tb = e.__traceback__
    out = []
    while tb is not None:
        out.append(f"{tb.tb_frame.f_code.co_filename.split('/')[-1]}:{tb.tb_lineno}")
        tb = tb.tb_next
    return " < ".join(out[::-1][:6])


def run_native(fn, lib, model, snapshot=None):
    """-> (status, label/out, inputs)"""
    if snapshot is not None:
        snapshot.restore()
    g = ConGen(model)
    g.snapshot = snapshot
    try:
        limit(NATIVE_S)
        fn(g, lib)
        limit(0)
        return "ok", canon(g.out), g.inputs
    except Hang:
        return "violation", "does not terminate", g.inputs
    except Violation as e:
        return "violation", e.label, g.inputs
    except Discard:
        return "discard", None, g.inputs
    except RecursionError as e:
        return "violation", "RecursionError", g.inputs
    except Exception as e:
        return "violation", f"unexpected {type(e).__name__}: {e} @ {_where(e)}", g.inputs
    finally:
        limit(0)
