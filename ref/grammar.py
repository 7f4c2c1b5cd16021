"""RFC 9535: a parser for query texts and the typing rules of 2.4.3.

parse(text) gives (ast, faults), the abstract query of ref/query.py and the
list of what is wrong with it, or None if the text is no query even when the
faults below are allowed:
  "zero"     an index with a leading zero, or -0
  "empty"    an empty bracketed list
  "comma"    a bracketed list that ends with a comma
  "literal"  a literal that is not compared
  "free"     neither well-formed nor one of the above: no verdict
"""
from ref import spell as S

BL = " \t\n\r"
SIGS = {
    "length": (("V",), "V"),
    "count": (("N",), "V"),
    "match": (("V", "V"), "L"),
    "search": (("V", "V"), "L"),
    "value": (("N",), "V"),
}


class Bad(Exception):
    pass


def digit(c):
    return "0" <= c <= "9"


class P:
    def __init__(self, text):
        self.t = text
        self.n = len(text)
        self.i = 0
        self.faults = []

    def at(self, s):
        return self.t[self.i:self.i + len(s)] == s

    def eat(self, s):
        if self.i + len(s) <= self.n and self.at(s):
            self.i += len(s)
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise Bad

    def ch(self):
        if self.i >= self.n:
            raise Bad
        return self.t[self.i]

    def more(self):
        return self.i < self.n

    def blank(self):
        n = 0
        while self.i < self.n:
            c = self.t[self.i]
            if not (c == " " or c == "\t" or c == "\n" or c == "\r"):
                break
            self.i += 1
            n += 1
        return n

    # -- segments

    def segments(self):
        out = []
        while True:
            back = self.i
            self.blank()
            if self.eat("["):
                out.append(("child", self.bracket()))
            elif self.eat(".."):
                if self.eat("["):
                    out.append(("desc", self.bracket()))
                elif self.eat("*"):
                    out.append(("desc", [("wild",)]))
                else:
                    out.append(("desc", [("name", self.name())]))
            elif self.eat("."):
                if self.eat("*"):
                    out.append(("child", [("wild",)]))
                else:
                    out.append(("child", [("name", self.name())]))
            else:
                self.i = back
                return out

    def name(self):
        j = self.i
        if not S.name_first(self.ch()):
            raise Bad
        self.i += 1
        while self.i < self.n and S.name_char(self.t[self.i]):
            self.i += 1
        return self.t[j:self.i]

    def bracket(self):
        out = []
        self.blank()
        if self.eat("]"):
            self.faults.append("empty")
            return out
        while True:
            out.append(self.selector())
            self.blank()
            if self.eat("]"):
                return out
            self.need(",")
            self.blank()
            if self.eat("]"):
                self.faults.append("comma")
                return out

    def int(self):
        """(value, canonical) or None"""
        j = self.i
        self.eat("-")
        k = self.i
        while self.i < self.n and digit(self.t[self.i]):
            self.i += 1
        if self.i == k:
            self.i = j
            return None
        d = self.t[k:self.i]
        ok = not ((len(d) > 1 or k > j) and d[0] == "0")
        return int(self.t[j:self.i]), ok

    def selector(self):
        c = self.ch()
        if c == "'" or c == '"':
            return ("name", self.string())
        if c == "*":
            self.i += 1
            return ("wild",)
        if c == "?":
            self.i += 1
            self.blank()
            return ("filter", self.logical())
        a = self.int()
        j = self.i
        self.blank()
        if not self.eat(":"):
            self.i = j
            if a is None:
                raise Bad
            if not a[1]:
                self.faults.append("zero")
            return ("index", a[0])
        self.blank()
        b = self.int()
        c = None
        j = self.i
        self.blank()
        if self.eat(":"):
            k = self.i
            self.blank()
            c = self.int()
            if c is None:
                # "::" S would belong to the list's blanks all the same
                self.i = k
        else:
            self.i = j
        for x in (a, b, c):
            if x is not None and not x[1]:
                self.faults.append("free")
        return ("slice", a[0] if a else None, b[0] if b else None, c[0] if c else None)

    def string(self):
        q = self.ch()
        self.i += 1
        j = self.i
        while True:
            c = self.ch()
            if c == q:
                break
            if c == "\\":
                self.i += 1
                self.ch()
            self.i += 1
        v = S.unquote(self.t[j:self.i], q)
        if v is None:
            raise Bad
        self.i += 1
        return v

    # -- filters

    def logical(self):
        e = self.conj()
        while True:
            j = self.i
            self.blank()
            if not self.eat("||"):
                self.i = j
                return e
            self.blank()
            e = ("or", e, self.conj())

    def conj(self):
        e = self.basic()
        while True:
            j = self.i
            self.blank()
            if not self.eat("&&"):
                self.i = j
                return e
            self.blank()
            e = ("and", e, self.basic())

    def basic(self):
        if self.eat("!"):
            self.blank()
            if self.eat("("):
                return ("not", self.closed())
            return ("not", self.test())
        if self.eat("("):
            return ("paren", self.closed())
        a = self.comparable()
        j = self.i
        self.blank()
        for op in ("==", "!=", "<=", ">=", "<", ">"):
            if self.eat(op):
                self.blank()
                b = self.comparable()
                for x in (a, b):
                    if x[0] == "q" and x[2]:
                        self.faults.append("free")
                return ("cmp", op, a[:2] if a[0] == "q" else a, b[:2] if b[0] == "q" else b)
        self.i = j
        return self.tested(a)

    def closed(self):
        self.blank()
        e = self.logical()
        self.blank()
        self.need(")")
        return e

    def test(self):
        return self.tested(self.comparable())

    def tested(self, a):
        if a[0] == "lit":
            self.faults.append("literal")
        return a[:2] if a[0] == "q" else a

    def comparable(self):
        """("q", query, spaced): spaced if blanks inside brackets spoil the
        grammar's singular query form."""
        c = self.ch()
        if c == "'" or c == '"':
            return ("lit", self.string())
        if c == "$" or c == "@":
            self.i += 1
            j = self.i
            segs = self.segments()
            return ("q", ("$" if c == "$" else "@", segs), spaced(self.t[j:self.i]))
        if c == "-" or digit(c):
            return ("lit", self.number())
        j = self.i
        while self.i < self.n and ("a" <= self.t[self.i] <= "z" or digit(self.t[self.i]) or self.t[self.i] == "_"):
            self.i += 1
        w = self.t[j:self.i]
        if len(w) and "a" <= w[0] <= "z" and self.eat("("):
            return ("fn", w, self.arguments())
        for s, v in (("true", True), ("false", False), ("null", None)):
            if w == s:
                if self.more() and S.name_char(self.t[self.i]):
                    raise Bad
                return ("lit", v)
        raise Bad

    def arguments(self):
        out = []
        self.blank()
        if self.eat(")"):
            return out
        while True:
            e = self.argument()
            out.append(e)
            self.blank()
            if self.eat(")"):
                return out
            self.need(",")
            self.blank()

    def argument(self):
        n = len(self.faults)
        e = self.logical()
        if e[0] == "lit":
            # an argument on its own is no test
            del self.faults[n:]
        return e

    def number(self):
        j = self.i
        self.eat("-")
        k = self.i
        while self.i < self.n and digit(self.t[self.i]):
            self.i += 1
        if self.i == k:
            raise Bad
        if self.t[k] == "0" and self.i > k + 1:
            self.faults.append("free")
        whole = True
        if self.eat("."):
            whole = False
            k = self.i
            while self.i < self.n and digit(self.t[self.i]):
                self.i += 1
            if self.i == k:
                raise Bad
        if self.more() and (self.t[self.i] == "e" or self.t[self.i] == "E"):
            self.i += 1
            whole = False
            if not self.eat("-"):
                self.eat("+")
            k = self.i
            while self.i < self.n and digit(self.t[self.i]):
                self.i += 1
            if self.i == k:
                raise Bad
        t = self.t[j:self.i]
        return int(t) if whole else float(t)


def spaced(t):
    """Blanks next to a bracket or comma, in a path without filters."""
    for i in range(len(t)):
        if t[i] == "[" and i + 1 < len(t) and blankc(t[i + 1]):
            return True
        if t[i] == "]" and i > 0 and blankc(t[i - 1]):
            return True
    return False


def blankc(c):
    return c == " " or c == "\t" or c == "\n" or c == "\r"


def parse(text):
    p = P(text)
    try:
        p.need("$")
        segs = p.segments()
        if p.more():
            return None
    except Bad:
        return None
    return ("$", segs), p.faults


# -- typing -----------------------------------------------------------------

def singular(q):
    for kind, sels in q[1]:
        if kind != "child" or len(sels) != 1 or sels[0][0] not in ("name", "index"):
            return False
    return True


def typed(q, sigs=SIGS):
    """The typing rules a query breaks."""
    out = []
    for kind, sels in q[1]:
        for s in sels:
            if s[0] == "filter":
                out += test_type(s[1], sigs)
    return out


def test_type(e, sigs):
    k = e[0]
    if k in ("or", "and"):
        return test_type(e[1], sigs) + test_type(e[2], sigs)
    if k in ("not", "paren"):
        return test_type(e[1], sigs)
    if k == "cmp":
        return operand(e[2], sigs) + operand(e[3], sigs)
    if k == "q":
        return typed(e[1], sigs)
    if k == "fn":
        out = call_type(e, sigs)
        if e[1] in sigs and sigs[e[1]][1] == "V":
            out = out + ["value-typed test"]
        return out
    return ["literal"]


def operand(e, sigs):
    k = e[0]
    if k == "q":
        return typed(e[1], sigs) + ([] if singular(e[1]) else ["non-singular operand"])
    if k == "fn":
        out = call_type(e, sigs)
        if e[1] in sigs and sigs[e[1]][1] != "V":
            out = out + ["operand not value-typed"]
        return out
    return []


def call_type(e, sigs):
    if e[1] not in sigs:
        return ["unknown function"]
    want = sigs[e[1]][0]
    if len(want) != len(e[2]):
        return ["wrong number of arguments"]
    out = []
    for a, t in zip(e[2], want):
        k = a[0]
        bad = ["wrong kind of argument"]
        if k == "fn":
            out += call_type(a, sigs)
            r = sigs[a[1]][1] if a[1] in sigs else t
            if t == "L":
                ok = r in ("L", "N")
            else:
                ok = r == t
            out += [] if ok else bad
        elif t == "V":
            if k == "q":
                out += typed(a[1], sigs) + ([] if singular(a[1]) else bad)
            elif k != "lit":
                out += bad
        elif t == "N":
            if k == "q":
                out += typed(a[1], sigs)
            else:
                out += bad
        else:
            if k == "lit":
                out += bad
            else:
                out += test_type(a, sigs)
    return out


def limits(q, lo, hi):
    """An index or slice bound outside lo..hi, anywhere."""
    out = []
    for kind, sels in q[1]:
        for s in sels:
            if s[0] == "index":
                out.append(s[1] < lo or s[1] > hi)
            elif s[0] == "slice":
                for x in s[1:]:
                    if x is not None:
                        out.append(x < lo or x > hi)
            elif s[0] == "filter":
                out += expr_limits(s[1], lo, hi)
    return out


def expr_limits(e, lo, hi):
    k = e[0]
    if k in ("or", "and"):
        return expr_limits(e[1], lo, hi) + expr_limits(e[2], lo, hi)
    if k in ("not", "paren"):
        return expr_limits(e[1], lo, hi)
    if k == "cmp":
        return expr_limits(e[2], lo, hi) + expr_limits(e[3], lo, hi)
    if k == "q":
        return limits(e[1], lo, hi)
    if k == "fn":
        out = []
        for a in e[2]:
            out += expr_limits(a, lo, hi)
        return out
    return []
