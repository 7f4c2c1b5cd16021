"""Symbolic execution of Python regular expressions.

Interprets re's own parse tree with re's backtracking order.  Every
single-character node is turned into a range set by asking the real `re`
engine about every character of the alphabet, so character semantics
(flags, categories, case folding) are re's by construction."""
from __future__ import annotations

import re
import re._compiler as _comp
import re._constants as C
import re._parser as _parser

from . import terms as T
from . import values as V
from .chars import ALL_LIST
from .engine import ENG, Cut
from .values import SymStr, chars_of, mkstr

SINGLE = {C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN}

_PUA = 0xE000


class CharTest:
    """A single-character node: native pattern + lazily built range set."""

    __slots__ = ("pat", "_rs", "_memo", "sym")

    def __init__(self, pat, sym=None):
        self.pat = pat
        self._rs = None
        self._memo = {}
        self.sym = sym  # symbolic literal term

    def term(self, c):
        if self.sym is not None:
            return T.b_eq(c, self.sym)
        if type(c) is int:
            r = self._memo.get(c)
            if r is None:
                r = self._memo[c] = self.pat.fullmatch(chr(c)) is not None
            return r
        if self._rs is None:
            f = self.pat.fullmatch
            self._rs = T.rs_vals([x for x in ALL_LIST if f(chr(x))])
        return T.b_in(c, self._rs)


class Prog:
    """A parsed pattern ready for symbolic matching."""

    def __init__(self, pattern, flags, subst=None):
        self.tree = _parser.parse(pattern, flags)
        self.state = self.tree.state
        self.flags = self.state.flags
        self.groups = self.state.groups
        self.groupdict = dict(self.state.groupdict)
        self.names = {v: k for k, v in self.groupdict.items()}
        self.subst = subst or {}
        self.tests = {}
        self.firsts = {}
        self.seq = self._conv(self.tree.data if hasattr(self.tree, "data") else list(self.tree), self.flags)

    def _test(self, node, flags):
        op, av = node
        if op is C.LITERAL and av in self.subst:
            return CharTest(None, self.subst[av])
        key = (repr(node), flags & (re.I | re.A | re.S | re.U | re.L))
        t = self.tests.get(key)
        if t is None:
            st = _parser.State()
            st.flags = flags
            st.str = ""
            sp = _parser.SubPattern(st, [node])
            pat = _comp.compile(sp, flags & ~re.DEBUG & ~re.TEMPLATE if hasattr(re, "TEMPLATE") else flags & ~re.DEBUG)
            t = self.tests[key] = CharTest(pat)
        return t

    def _conv(self, items, flags):
        """parse tree -> tuple of internal nodes"""
        out = []
        for op, av in items:
            if op in SINGLE:
                out.append(("c", self._test((op, av), flags)))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                lo, hi, sub = av
                hi = None if hi is C.MAXREPEAT else int(hi)
                body = self._conv(list(sub), flags)
                kind = {C.MAX_REPEAT: "max", C.MIN_REPEAT: "min", C.POSSESSIVE_REPEAT: "poss"}[op]
                out.append(("rep", kind, int(lo), hi, body))
            elif op is C.SUBPATTERN:
                gid, add, rem, sub = av
                body = self._conv(list(sub), (flags | add) & ~rem)
                out.append(("grp", gid, body))
            elif op is C.ATOMIC_GROUP:
                out.append(("atom", self._conv(list(av), flags)))
            elif op is C.BRANCH:
                out.append(("br", [self._conv(list(x), flags) for x in av[1]], {}))
            elif op is C.AT:
                out.append(("at", av, flags))
            elif op in (C.ASSERT, C.ASSERT_NOT):
                d, sub = av
                sp = sub
                width = sub.getwidth() if d < 0 else None
                out.append(("look", op is C.ASSERT, d, self._conv(list(sp), flags), width))
            elif op is C.GROUPREF:
                out.append(("ref", av, flags))
            elif op is C.GROUPREF_EXISTS:
                gid, yes, no = av
                out.append(("refx", gid, self._conv(list(yes), flags), self._conv(list(no), flags) if no else ()))
            elif op is C.FAILURE:
                out.append(("fail",))
            else:
                raise Cut("regex-op")
        return tuple(out)

    # -- first sets: skip alternatives that cannot match a concrete character
    def first(self, seq):
        """List of CharTests that the first character must satisfy one of, or
        None when unknown / may be empty."""
        e = self.firsts.get(id(seq))
        if e is not None and e[0] is seq:
            return e[1]
        r = self._first(seq)
        self.firsts[id(seq)] = (seq, r)
        return r

    def _first(self, seq):
        for n in seq:
            k = n[0]
            if k == "c":
                return [n[1]]
            if k == "look" or k == "at":
                continue
            if k == "grp":
                return self.first(n[2]) if n[2] else None
            if k == "rep":
                if n[2] > 0:
                    return self.first(n[4])
                return None
            if k == "br":
                out = []
                for alt in n[1]:
                    f = self.first(alt)
                    if f is None:
                        return None
                    out.extend(f)
                return out
            return None
        return None


_progs = {}


def prog_for(pat):
    p = _progs.get(pat)
    if p is None:
        p = _progs[pat] = Prog(pat.pattern, pat.flags & ~re.U if False else pat.flags)
    return p


class Matcher:
    def __init__(self, prog, cs, pos, endpos):
        self.prog = prog
        self.cs = cs
        self.pos0 = pos
        self.end = endpos
        self.groups = {}
        self.lastindex = None
        self.steps = 0

    def branch(self, t):
        if t is True or t is False:
            return t
        return ENG.branch(t)

    def m(self, seq, i, pos, k):
        """Match seq[i:] at pos then continuation k(pos)."""
        n = len(seq)
        while i < n:
            node = seq[i]
            op = node[0]
            if op == "c":
                if pos >= self.end or not self.branch(node[1].term(self.cs[pos])):
                    return False
                pos += 1
                i += 1
                continue
            if op == "at":
                if not self.at(node[1], pos, node[2]):
                    return False
                i += 1
                continue
            if op == "grp":
                gid = node[1]
                if gid is None:
                    return self.m(node[2], 0, pos, lambda p, i=i: self.m(seq, i + 1, p, k))
                old = self.groups.get(gid)
                oldlast = self.lastindex

                def after(p, gid=gid, start=pos, i=i):
                    prev = self.groups.get(gid)
                    pl = self.lastindex
                    self.groups[gid] = (start, p)
                    self.lastindex = gid
                    if self.m(seq, i + 1, p, k):
                        return True
                    self.groups[gid] = prev
                    self.lastindex = pl
                    return False

                if self.m(node[2], 0, pos, after):
                    return True
                self.groups[gid] = old
                self.lastindex = oldlast
                return False
            if op == "br":
                c = self.cs[pos] if pos < self.end else None
                for alt in self.alts(node, c):
                    if self.m(alt, 0, pos, lambda p, i=i: self.m(seq, i + 1, p, k)):
                        return True
                return False
            if op == "rep":
                return self.rep(node, seq, i, pos, k)
            if op == "look":
                if self.look(node, pos) != node[1]:
                    return False
                i += 1
                continue
            if op == "atom":
                end = []
                if not self.m(node[1], 0, pos, lambda p: end.append(p) or True):
                    return False
                pos = end[-1]
                i += 1
                continue
            if op == "ref":
                g = self.groups.get(node[1])
                if g is None:
                    return False
                a, b = g
                L = b - a
                if pos + L > self.end:
                    return False
                if node[2] & re.I:
                    raise Cut("regex-ref-ignorecase")
                for j in range(L):
                    if not self.branch(T.b_eq(self.cs[a + j], self.cs[pos + j])):
                        return False
                pos += L
                i += 1
                continue
            if op == "refx":
                body = node[2] if self.groups.get(node[1]) is not None else node[3]
                return self.m(body, 0, pos, lambda p, i=i: self.m(seq, i + 1, p, k))
            if op == "fail":
                return False
            raise Cut("regex-node")
        return k(pos)

    def alts(self, node, c):
        if type(c) is not int:
            if c is None:
                return [a for a in node[1] if self.prog.first(a) is None]
            return node[1]
        memo = node[2]
        r = memo.get(c)
        if r is None:
            r = []
            dyn = False
            for a in node[1]:
                f = self.prog.first(a)
                if f is None:
                    r.append(a)
                elif any(t.sym is not None for t in f):
                    r.append(a)
                elif any(t.term(c) for t in f):
                    r.append(a)
            memo[c] = r
        return r

    def rep(self, node, seq, i, pos, k):
        _, kind, lo, hi, body = node
        nxt = lambda p: self.m(seq, i + 1, p, k)
        if len(body) == 1 and body[0][0] == "c":
            t = body[0][1]
            if kind in ("max", "poss"):
                p = pos
                lim = self.end if hi is None else min(self.end, pos + hi)
                while p < lim and self.branch(t.term(self.cs[p])):
                    p += 1
                if p - pos < lo:
                    return False
                if kind == "poss":
                    return nxt(p)
                while True:
                    if nxt(p):
                        return True
                    p -= 1
                    if p - pos < lo:
                        return False
            p = pos
            cnt = 0
            while cnt < lo:
                if p >= self.end or not self.branch(t.term(self.cs[p])):
                    return False
                p += 1
                cnt += 1
            while True:
                if nxt(p):
                    return True
                if (hi is not None and cnt >= hi) or p >= self.end or not self.branch(t.term(self.cs[p])):
                    return False
                p += 1
                cnt += 1

        if kind == "poss":
            p = pos
            cnt = 0
            while hi is None or cnt < hi:
                end = []
                if not self.m(body, 0, p, lambda q: end.append(q) or True):
                    break
                cnt += 1
                if end[-1] == p:
                    cnt = max(cnt, lo)
                    break
                p = end[-1]
            return nxt(p) if cnt >= lo else False

        def go(p, cnt, last):
            if kind == "max":
                if (hi is None or cnt < hi) and not (cnt >= lo and p == last):
                    if self.m(body, 0, p, lambda q: go(q, cnt + 1, p)):
                        return True
                return nxt(p) if cnt >= lo else False
            if cnt >= lo and nxt(p):
                return True
            if (hi is None or cnt < hi) and not (cnt >= lo and p == last):
                return self.m(body, 0, p, lambda q: go(q, cnt + 1, p))
            return False

        return go(pos, 0, -1)

    def look(self, node, pos):
        _, positive, d, body, width = node
        saved = dict(self.groups)
        if d > 0:
            r = self.m(body, 0, pos, lambda p: True)
        else:
            lo, hi = width
            if lo != hi:
                raise Cut("regex-lookbehind")
            r = pos - lo >= 0 and self.m(body, 0, pos - lo, lambda p: p == pos)
        if not positive or not r:
            self.groups = saved
        return r

    def word(self, c, flags):
        if flags & re.A:
            return V.in_pred(c, "word-a", lambda ch: re.match(r"\w", ch, re.A) is not None)
        return V.in_pred(c, "word", lambda ch: ch.isalnum() or ch == "_")

    def at(self, code, pos, flags):
        if code is C.AT_BEGINNING:
            if flags & re.M:
                return pos == 0 or self.branch(T.b_eq(self.cs[pos - 1], 10))
            return pos == 0
        if code is C.AT_BEGINNING_STRING:
            return pos == 0
        if code is C.AT_BEGINNING_LINE:
            return pos == 0 or self.branch(T.b_eq(self.cs[pos - 1], 10))
        if code is C.AT_END:
            if flags & re.M:
                return pos == self.end or self.branch(T.b_eq(self.cs[pos], 10))
            return pos == self.end or (pos == self.end - 1 and self.branch(T.b_eq(self.cs[pos], 10)))
        if code is C.AT_END_LINE:
            return pos == self.end or self.branch(T.b_eq(self.cs[pos], 10))
        if code is C.AT_END_STRING:
            return pos == self.end
        if code in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = pos > 0 and self.branch(self.word(self.cs[pos - 1], flags))
            b = pos < self.end and self.branch(self.word(self.cs[pos], flags))
            if not self.cs and code is C.AT_NON_BOUNDARY:
                return False  # CPython < 3.14: \B never matches an empty string
            r = a != b
            return r if code is C.AT_BOUNDARY else not r
        raise Cut("regex-at")


def match_at(prog, s, cs, pos, endpos, full=False, mustadvance=None):
    mt = Matcher(prog, cs, pos, endpos)
    end = []

    def fin(p):
        if full and p != endpos:
            return False
        if mustadvance is not None and p == mustadvance:
            return False
        end.append(p)
        return True

    if mt.m(prog.seq, 0, pos, fin):
        return SymMatch(prog, s, cs, pos, end[-1], mt.groups, mt.lastindex, endpos)
    return None


class SymMatch:
    def __init__(self, prog, s, cs, start, end, groups, lastindex, endpos, pat=None):
        self.prog = prog
        self.string = s
        self._cs = cs
        self._s = start
        self._e = end
        self._g = groups
        self.lastindex = lastindex
        self.pos = 0
        self.endpos = endpos
        self.re = pat

    @property
    def __class__(self):
        return re.Match

    @property
    def lastgroup(self):
        return self.prog.names.get(self.lastindex)

    def _idx(self, g):
        if isinstance(g, str):
            if g not in self.prog.groupdict:
                raise IndexError("no such group")
            return self.prog.groupdict[g]
        g = int(g)
        if not 0 <= g < self.prog.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return (self._s, self._e)
        return self._g.get(g) or (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return mkstr(self._cs[a:b])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.prog.groups))

    def groupdict(self, default=None):
        return {k: self._get(i, default) for k, i in self.prog.groupdict.items()}

    def __bool__(self):
        return True

    def expand(self, t):
        return expand(t, self)


def expand(template, m):
    if "\\" not in template:
        return template
    names = {n: name for name, n in m.prog.groupdict.items()}
    dummy = "".join(f"(?P<{names[n]}>x)" if n in names else "(x)" for n in range(1, m.prog.groups))
    parsed = _parser.parse_template(template, re.compile(dummy))
    out = []
    for p in parsed:
        out.append((m._get(p) or "") if isinstance(p, int) else p)
    return V.concat(out)


def _span(n, pos, endpos):
    pos = max(0, min(n, int(pos)))
    endpos = n if endpos is None else max(0, min(n, int(endpos)))
    return pos, endpos


def subject(s):
    if type(s).__name__ == "LazyJSON":
        s = s._deref()
    if not isinstance(s, str):
        raise TypeError("expected string or bytes-like object")
    return chars_of(s)


class RX:
    """Pattern methods over symbolic strings."""

    def __init__(self, prog, pat=None):
        self.prog = prog
        self.pat = pat

    def match(self, string, pos=0, endpos=None, full=False):
        cs = subject(string)
        pos, endpos = _span(len(cs), pos, endpos)
        if pos > endpos:
            return None
        r = match_at(self.prog, string, cs, pos, endpos, full)
        if r is not None:
            r.re = self.pat
        return r

    def fullmatch(self, string, pos=0, endpos=None):
        return self.match(string, pos, endpos, True)

    def search(self, string, pos=0, endpos=None):
        cs = subject(string)
        pos, endpos = _span(len(cs), pos, endpos)
        for p in range(pos, endpos + 1):
            r = match_at(self.prog, string, cs, p, endpos)
            if r is not None:
                r.re = self.pat
                return r
        return None

    def finditer(self, string, pos=0, endpos=None):
        cs = subject(string)
        pos, endpos = _span(len(cs), pos, endpos)
        must = None
        while pos <= endpos:
            r = None
            for p in range(pos, endpos + 1):
                r = match_at(self.prog, string, cs, p, endpos, False, must if p == must else None)
                if r is not None:
                    break
            if r is None:
                return
            r.re = self.pat
            yield r
            # CPython: after an empty match the next one must not be empty here
            must = r._e
            if r._e > r._s:
                must = None
                pos = r._e
                must = None
                # an empty match right after a non-empty one is allowed
            else:
                pos = r._e
                must = r._e

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.prog.groups == 1:
                out.append(m.group())
            elif self.prog.groups == 2:
                out.append(m._get(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def subn(self, repl, string, count=0):
        cs = subject(string)
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            out.append(mkstr(cs[last:m._s]))
            if callable(repl):
                out.append(repl(m))
            elif type(repl) is str:
                out.append(expand(repl, m))
            else:
                r = repl
                if ENG.branch(T.b_or(*[T.b_eq(c, 92) for c in chars_of(r)])):
                    raise Cut("regex-symbolic-template")
                out.append(r)
            last = m._e
            n += 1
        out.append(mkstr(cs[last:]))
        return V.concat(out), n

    def split(self, string, maxsplit=0):
        cs = subject(string)
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(mkstr(cs[last:m._s]))
            out.extend(m.groups())
            last = m._e
            n += 1
        out.append(mkstr(cs[last:]))
        return out

    def __getattr__(self, name):
        if self.pat is not None:
            return getattr(self.pat, name)
        if name == "groups":
            return self.prog.groups - 1
        if name == "groupindex":
            return dict(self.prog.groupdict)
        if name == "flags":
            return self.prog.flags
        raise AttributeError(name)


class SymPattern(RX):
    """Compiled from a pattern text with symbolic literal characters."""

    def __init__(self, prog, text):
        super().__init__(prog, None)
        self.pattern = text

    @property
    def __class__(self):
        return re.Pattern


class EscStr(SymStr):
    """Text returned by re.escape: its symbolic characters are literals."""

    __slots__ = ()


_LITERAL_SAFE = T.rs_vals([c for c in ALL_LIST if chr(c).isalnum() or (c > 127)])


def escape(s):
    """re.escape over symbolic text: symbolic characters become literal marks
    carried in a side table keyed by the term."""
    out = []
    for c in s.fix():
        if type(c) is int:
            out.extend(map(ord, re.escape(chr(c))))
        else:
            out.append(LitMark.of(c))
    return SymStr(tuple(out))


class LitMark(T.Node):
    """A character term known to stand for itself in a pattern.  Behaves as the
    underlying term everywhere else."""

    __slots__ = ()

    @staticmethod
    def of(c):
        key = ("litmark", c)
        r = ENG.memo.get(key)
        if r is None:
            # an alias: an ite node that is equal to c in every model
            r = T.mk("lin", ((c, 1),), 0) if False else c
            ENG.memo[key] = r
            ENG.memo.setdefault("litmarks", set()).add(c)
        return r


def compile_pattern(pattern, flags=0):
    """re.compile with a SymStr pattern."""
    cs = pattern.fix()
    marks = ENG.memo.get("litmarks", ())
    subst = {}
    text = []
    back = {}
    for c in cs:
        if type(c) is int:
            text.append(chr(c))
            continue
        if c not in marks and ENG.simp(T.b_in(c, _LITERAL_SAFE)) is not True:
            v = ENG.concretize(c, 400, "regex-pattern")
            text.append(chr(v))
            continue
        p = back.get(c)
        if p is None:
            p = back[c] = _PUA + len(back)
            subst[p] = c
        text.append(chr(p))
    text = "".join(text)
    if not subst:
        return re.compile(text, flags)
    re.compile(text, flags)  # same errors as the real engine
    prog = Prog(text, int(flags), subst)
    return SymPattern(prog, pattern)
