"""Query text of an abstract query (RFC 9535 grammar, many spellings)."""
from ref import query as Q

BLANKS = " \t\n\r"
RESERVED = ("or", "and", "in", "true", "True", "false", "False", "nil", "Nil", "null", "Null",
            "none", "None", "contains", "undefined", "missing", "not")


def none():
    return ""


class Style:
    """quote: quote character; short: dot shorthand where the grammar allows it;
    blank(): the text of each optional blank; tokens: identifier spellings."""

    def __init__(self, quote="'", short=False, blank=none, tokens=None, words=False, alias=None):
        self.quote = quote
        self.short = short
        self.b = blank
        self.tokens = tokens or {}
        self.words = words
        self.alias = alias or {}

    def tok(self, t):
        return self.tokens.get(t, t)

    def op(self, o):
        return self.alias.get(o, o)


DEFAULT = Style()


def quoted(s, quote="'"):
    out = quote
    for c in s:
        if c == "\\" or c == quote:
            out = out + "\\" + c
        elif c < " ":
            out = out + Q.ctrl(c)
        else:
            out = out + c
    return out + quote


def name_first(c):
    return c == "_" or "a" <= c <= "z" or "A" <= c <= "Z" or c >= "\x80"


def name_char(c):
    return name_first(c) or "0" <= c <= "9"


def shorthand(s):
    """RFC 9535 member-name-shorthand."""
    if len(s) == 0 or not name_first(s[0]):
        return False
    for c in s:
        if not name_char(c):
            return False
    return True


def query(q, st=DEFAULT):
    out = st.tok(q[0])
    for kind, sels in q[1]:
        out = out + st.b()
        if st.short and len(sels) == 1 and sels[0][0] in ("name", "wild", "keys"):
            s = sels[0]
            if s[0] == "wild":
                out = out + (".*" if kind == "child" else "..*")
                continue
            if s[0] == "keys":
                out = out + ("." if kind == "child" else "..") + st.tok("~")
                continue
            if shorthand(s[1]) and (kind == "child" or s[1] not in RESERVED):
                out = out + ("." if kind == "child" else "..") + s[1]
                continue
        if kind == "desc":
            out = out + ".."
        parts = [st.b() + selector(s, st) + st.b() for s in sels]
        out = out + "[" + ",".join(parts) + "]"
    return out


def selector(s, st=DEFAULT):
    k = s[0]
    if k == "name":
        return quoted(s[1], st.quote)
    if k == "bare":
        return s[1]
    if k == "index":
        return str(s[1])
    if k == "slice":
        out = ("" if s[1] is None else str(s[1]) + st.b()) + ":"
        if s[2] is not None:
            out = out + st.b() + str(s[2]) + st.b()
        if s[3] is not None:
            out = out + ":" + st.b() + str(s[3])
        return out
    if k == "wild":
        return "*"
    if k == "keys":
        return st.tok("~")
    return "?" + st.b() + expr(s[1], st)


PREC = {"or": 1, "and": 2, "cmp": 3}


def expr(e, st=DEFAULT, ctx=0):
    """ctx: binding strength required by the surrounding expression."""
    k = e[0]
    if k == "or" or k == "and":
        p = PREC[k]
        o = st.op("||" if k == "or" else "&&")
        sep = " " if o.isalpha() else ""
        t = expr(e[1], st, p) + sep + st.b() + o + st.b() + sep + expr(e[2], st, p)
        return "(" + st.b() + t + st.b() + ")" if ctx > p else t
    if k == "not":
        o = st.op("!")
        sep = " " if o.isalpha() else ""
        return o + sep + st.b() + expr(e[1], st, 9)
    if k == "paren":
        return "(" + st.b() + expr(e[1], st, 0) + st.b() + ")"
    if k == "cmp":
        o = st.op(e[1])
        sep = " " if o.isalpha() else ""
        t = comparable(e[2], st) + sep + st.b() + o + st.b() + sep + comparable(e[3], st)
        return "(" + st.b() + t + st.b() + ")" if ctx > 3 else t
    return comparable(e, st)


def comparable(e, st=DEFAULT):
    k = e[0]
    if k == "q":
        return query(e[1], st)
    if k == "lit":
        return literal(e[1], st)
    if k == "key":
        return st.tok("#")
    if k == "undef":
        return st.op("undefined")
    if k == "list":
        return "[" + ", ".join([literal(x, st) for x in e[1]]) + "]"
    if k == "rx":
        return quoted(Q.rx_text(e[1]), st.quote)
    if k == "re":
        return "/" + Q.rx_text(e[1]) + "/" + (e[2] if len(e) > 2 else "")
    if k == "fn":
        return e[1] + "(" + ",".join([st.b() + expr(a, st) + st.b() for a in e[2]]) + ")"
    return expr(e, st)


def literal(v, st=DEFAULT):
    if v is None:
        return st.op("null")
    if v is True:
        return st.op("true")
    if v is False:
        return st.op("false")
    if isinstance(v, str):
        return quoted(v, st.quote)
    return str(v)


# -- string literals: text -> value ----------------------------------------

ESC = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "/": "/", "\\": "\\"}


def hexval(c):
    if "0" <= c <= "9":
        return ord(c) - 48
    if "a" <= c <= "f":
        return ord(c) - 87
    if "A" <= c <= "F":
        return ord(c) - 55
    return -1


def hex4(t, i):
    """Value of four hex digits at i, or -1."""
    if i + 4 > len(t):
        return -1
    v = 0
    for j in range(4):
        h = hexval(t[i + j])
        if h < 0:
            return -1
        v = v * 16 + h
    return v


def unquote(t, quote):
    """The string between quotes written as t, or None if it is not RFC 9535."""
    out = ""
    i = 0
    n = len(t)
    while i < n:
        c = t[i]
        if c == quote or c < " " or "\ud800" <= c <= "\udfff":
            return None
        if c != "\\":
            out = out + c
            i += 1
            continue
        i += 1
        if i >= n:
            return None
        c = t[i]
        if c == quote:
            out = out + c
            i += 1
        elif c == "u":
            v = hex4(t, i + 1)
            if v < 0:
                return None
            i += 5
            if 0xDC00 <= v <= 0xDFFF:
                return None
            if 0xD800 <= v <= 0xDBFF:
                if not (t[i:i + 1] == "\\" and t[i + 1:i + 2] == "u"):
                    return None
                w = hex4(t, i + 2)
                if not 0xDC00 <= w <= 0xDFFF:
                    return None
                i += 6
                v = 0x10000 + (v - 0xD800) * 1024 + (w - 0xDC00)
            out = out + chr(v)
        else:
            r = None
            for k, x in ESC.items():
                if c == k:
                    r = x
                    break
            if r is None:
                return None
            out = out + r
            i += 1
    return out
