"""RFC 9535: query abstract syntax, evaluation and typing.

A query is (root, segments), root one of "$", "@"; extensions used by other
checks: "^" (fake root), "_" (filter context).
A segment is ("child" | "desc", [selector, ...]).
Selectors: ("name", s) ("index", i) ("slice", a, b, c) ("wild",) ("filter", e)
and the non-standard ("keys",).
Expressions: ("or", a, b) ("and", a, b) ("not", a) ("cmp", op, a, b)
("q", query) ("fn", name, args) ("lit", value) and the extensions
("key",) ("undef",) ("list", [values]) ("re", matcher-ast, flags).
"""


class _Nothing:
    def __repr__(self):
        return "Nothing"


NOTHING = _Nothing()


class Ctx:
    """root: the query argument; eq: JSON equality; extra: filter context."""

    def __init__(self, root, eq, extra=None):
        self.root = root
        self.eq = eq
        self.extra = extra if extra is not None else {}


# -- evaluation -----------------------------------------------------------

def run(q, root, eq, extra=None):
    """The nodelist of q: [(location, value), ...]."""
    return nodes(q, Ctx(root, eq, extra), None, None)


def nodes(q, ctx, cur, key):
    if q[0] == "$":
        start = ctx.root
    elif q[0] == "^":
        start = [ctx.root]
    elif q[0] == "_":
        start = ctx.extra
    else:
        start = cur
    out = [((), start)]
    for kind, sels in q[1]:
        nxt = []
        for loc, v in out:
            if kind == "desc":
                for l2, v2 in visit(loc, v):
                    for s in sels:
                        select(s, l2, v2, ctx, nxt)
            else:
                for s in sels:
                    select(s, loc, v, ctx, nxt)
        out = nxt
    return out


def visit(loc, v):
    """v and its descendants that can have children, parents first."""
    out = [(loc, v)]
    if isinstance(v, dict):
        for k in v:
            out.extend(visit(loc + (k,), v[k]))
    elif isinstance(v, list):
        for i in range(len(v)):
            out.extend(visit(loc + (i,), v[i]))
    return out


def select(s, loc, v, ctx, out):
    k = s[0]
    if k == "name":
        if isinstance(v, dict) and s[1] in v:
            out.append((loc + (s[1],), v[s[1]]))
    elif k == "index":
        if isinstance(v, list):
            i = s[1]
            if i < 0:
                i = i + len(v)
            if 0 <= i < len(v):
                out.append((loc + (i,), v[i]))
        elif isinstance(v, dict):  # documented departure
            name = str(s[1])
            if name in v:
                out.append((loc + (name,), v[name]))
    elif k == "slice":
        if isinstance(v, list):
            for i in slice_indices(s[1], s[2], s[3], len(v)):
                out.append((loc + (i,), v[i]))
    elif k == "wild":
        if isinstance(v, dict):
            for n in v:
                out.append((loc + (n,), v[n]))
        elif isinstance(v, list):
            for i in range(len(v)):
                out.append((loc + (i,), v[i]))
    elif k == "keys":
        if isinstance(v, dict):
            for n in v:
                out.append((loc + ("~", n), n))
    elif k == "filter":
        if isinstance(v, dict):
            for n in v:
                if logical(s[1], ctx, v[n], n):
                    out.append((loc + (n,), v[n]))
        elif isinstance(v, list):
            for i in range(len(v)):
                if logical(s[1], ctx, v[i], i):
                    out.append((loc + (i,), v[i]))
    else:
        raise AssertionError(k)


def slice_indices(start, end, step, n):
    """RFC 9535 2.3.4.2.2."""
    if step is None:
        step = 1
    if step == 0:
        return []
    if step > 0:
        lo = 0 if start is None else norm(start, n)
        hi = n if end is None else norm(end, n)
        lower = min(max(lo, 0), n)
        upper = min(max(hi, 0), n)
        out = []
        i = lower
        while i < upper:
            out.append(i)
            i = i + step
        return out
    lo = n - 1 if start is None else norm(start, n)
    hi = -n - 1 if end is None else norm(end, n)
    upper = min(max(lo, -1), n - 1)
    lower = min(max(hi, -1), n - 1)
    out = []
    i = upper
    while lower < i:
        out.append(i)
        i = i + step
    return out


def norm(i, n):
    return i if i >= 0 else n + i


def logical(e, ctx, cur, key):
    k = e[0]
    if k == "or":
        return logical(e[1], ctx, cur, key) or logical(e[2], ctx, cur, key)
    if k == "and":
        return logical(e[1], ctx, cur, key) and logical(e[2], ctx, cur, key)
    if k == "not":
        return not logical(e[1], ctx, cur, key)
    if k == "paren":
        return logical(e[1], ctx, cur, key)
    if k == "cmp":
        return compare(e[1], e[2], e[3], ctx, cur, key)
    if k == "q":
        return len(nodes(e[1], ctx, cur, key)) > 0
    if k == "fn":
        return call(e[1], e[2], ctx, cur, key)
    raise AssertionError(k)


def value(e, ctx, cur, key):
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "q":
        ns = nodes(e[1], ctx, cur, key)
        return ns[0][1] if len(ns) == 1 else NOTHING
    if k == "fn":
        return call(e[1], e[2], ctx, cur, key)
    if k == "key":
        return key
    if k == "undef":
        return NOTHING
    if k == "list":
        return list(e[1])
    raise AssertionError(k)


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def eq(a, b, ctx):
    if a is NOTHING or b is NOTHING:
        return a is b
    return ctx.eq(a, b)


def lt(a, b):
    if a is NOTHING or b is NOTHING:
        return False
    if isinstance(a, str):
        return isinstance(b, str) and a < b
    if isnum(a):
        return isnum(b) and a < b
    return False


def member(a, b, ctx):
    """a in b (extension): array element, substring, member name."""
    if a is NOTHING or b is NOTHING:
        return False
    if isinstance(b, str):
        return isinstance(a, str) and a in b
    if isinstance(b, dict):
        return isinstance(a, str) and a in b
    if isinstance(b, list):
        for x in b:
            if ctx.eq(a, x):
                return True
    return False


def compare(op, le, re_, ctx, cur, key):
    a = value(le, ctx, cur, key)
    if op == "=~":
        return isinstance(a, str) and fullmatch(re_[1], a, re_[2] if len(re_) > 2 else "")
    b = value(re_, ctx, cur, key)
    if op == "==":
        return eq(a, b, ctx)
    if op == "!=":
        return not eq(a, b, ctx)
    if op == "<":
        return lt(a, b)
    if op == ">":
        return lt(b, a)
    if op == "<=":
        return lt(a, b) or eq(a, b, ctx)
    if op == ">=":
        return lt(b, a) or eq(a, b, ctx)
    if op == "in":
        return member(a, b, ctx)
    if op == "contains":
        return member(b, a, ctx)
    raise AssertionError(op)


def call(fname, args, ctx, cur, key):
    if fname == "length":
        v = value(args[0], ctx, cur, key)
        if v is not NOTHING and isinstance(v, (str, list, dict)):
            return len(v)
        return NOTHING
    if fname == "count":
        return len(nodes(args[0][1], ctx, cur, key))
    if fname == "value":
        ns = nodes(args[0][1], ctx, cur, key)
        return ns[0][1] if len(ns) == 1 else NOTHING
    if fname in ("match", "search"):
        v = value(args[0], ctx, cur, key)
        if v is NOTHING or not isinstance(v, str):
            return False
        if args[1][0] != "rx":
            raise AssertionError("pattern")
        if fname == "match":
            return fullmatch(args[1][1], v)
        return search(args[1][1], v)
    raise AssertionError(fname)


# -- regular expressions (the dialect shared by re and I-Regexp) ----------
# ("ch", c) ("set", neg, chars) ("any",) ("cat", [..]) ("alt", [..])
# ("star", a) ("opt", a) ("plus", a)

def rx_text(r, top=True):
    k = r[0]
    if k == "ch":
        return r[1]
    if k == "any":
        return "."
    if k == "set":
        return "[" + ("^" if r[1] else "") + r[2] + "]"
    if k == "cat":
        return "".join([rx_text(x, False) for x in r[1]])
    if k == "alt":
        t = "|".join([rx_text(x, False) for x in r[1]])
        return t if top else "(" + t + ")"
    if k == "bol":
        return "^"
    if k == "eol":
        return "$"
    if k == "digit":
        return "\\d"
    if k == "rng":
        return "[" + r[1] + "-" + r[2] + "]"
    if k == "esc":
        return "\\" + r[1]
    if k == "rep":
        return "(" + rx_text(r[1]) + "){" + str(r[2]) + "," + str(r[3]) + "}"
    return "(" + rx_text(r[1]) + ")" + {"star": "*", "opt": "?", "plus": "+"}[k]


def fold(c):
    """ASCII case folding."""
    return chr(ord(c) + 32) if "A" <= c <= "Z" else c


def rx_ends(r, s, i, flags=""):
    """End positions of matches of r in s from i; flags among "aims"."""
    k = r[0]
    if k == "bol":
        return [i] if i == 0 or ("m" in flags and s[i - 1] == "\n") else []
    if k == "eol":
        if i == len(s) or (i == len(s) - 1 and s[i] == "\n"):
            return [i]
        return [i] if "m" in flags and s[i] == "\n" else []
    if k == "digit":
        if i < len(s):
            c = s[i]
            if "0" <= c <= "9" or ("a" not in flags and "\u0660" <= c <= "\u0669"):
                return [i + 1]
        return []
    if k in ("ch", "any", "set", "esc", "rng"):
        if i < len(s):
            c = s[i]
            if k == "ch" or k == "esc":
                ok = fold(c) == fold(r[1]) if "i" in flags else c == r[1]
            elif k == "rng":
                ok = r[1] <= c <= r[2]
            elif k == "any":
                ok = "s" in flags or (c != "\n" and c != "\r")
            else:
                ok = (c in r[2]) != r[1] if "i" not in flags else any([fold(c) == fold(x) for x in r[2]]) != r[1]
            if ok:
                return [i + 1]
        return []
    if k == "cat":
        ends = [i]
        for x in r[1]:
            nxt = []
            for e in ends:
                for f in rx_ends(x, s, e, flags):
                    if f not in nxt:
                        nxt.append(f)
            ends = nxt
        return ends
    if k == "alt":
        out = []
        for x in r[1]:
            for f in rx_ends(x, s, i, flags):
                if f not in out:
                    out.append(f)
        return out
    if k == "rep":
        out = []
        ends = [i]
        for n in range(r[3] + 1):
            if n >= r[2]:
                for e in ends:
                    if e not in out:
                        out.append(e)
            nxt = []
            for e in ends:
                for f in rx_ends(r[1], s, e, flags):
                    if f not in nxt:
                        nxt.append(f)
            ends = nxt
        return out
    out = [] if k == "plus" else [i]
    front = [i]
    while front:
        nxt = []
        for e in front:
            for f in rx_ends(r[1], s, e, flags):
                if f not in out:
                    out.append(f)
                    nxt.append(f)
        if k == "opt":
            break
        front = nxt
    return out


def fullmatch(r, s, flags=""):
    return len(s) in rx_ends(r, s, 0, flags)


def search(r, s):
    for i in range(len(s) + 1):
        if rx_ends(r, s, i):
            return True
    return False


# -- locations -------------------------------------------------------------

HEX = "0123456789abcdef"
SHORT = {"\b": "\\b", "\t": "\\t", "\n": "\\n", "\f": "\\f", "\r": "\\r", "'": "\\'", "\\": "\\\\"}


def normalized(loc):
    """RFC 9535 2.7 normalized path."""
    out = "$"
    for p in loc:
        if isinstance(p, str):
            out = out + "['" + norm_name(p) + "']"
        else:
            out = out + "[" + str(p) + "]"
    return out


def norm_name(s):
    out = ""
    for c in s:
        if c == "'" or c == "\\":
            out = out + "\\" + c
        elif c < " ":
            out = out + ctrl(c)
        else:
            out = out + c
    return out


def ctrl(c):
    for k, v in SHORT.items():
        if c == k:
            return v
    o = ord(c)
    return "\\u00" + HEX[o // 16] + HEX[o % 16]


def at(doc, loc):
    for p in loc:
        doc = doc[p]
    return doc
