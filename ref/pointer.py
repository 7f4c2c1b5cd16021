"""RFC 6901 reference: written from the RFC text, independent of /repo."""

OK, FAIL, EXT = "ok", "fail", "ext"


def valid(p):
    """Section 3 syntax."""
    if p == "":
        return True
    if not p.startswith("/"):
        return False
    i = 0
    n = len(p)
    while i < n:
        if p[i] == "~":
            if i + 1 >= n or not (p[i + 1] == "0" or p[i + 1] == "1"):
                return False
        i += 1
    return True


def unescape(tok):
    if "~" not in tok:
        return tok
    return tok.replace("~1", "/").replace("~0", "~")


def escape(tok):
    out = ""
    for c in tok:
        if c == "~":
            out += "~0"
        elif c == "/":
            out += "~1"
        else:
            out += c
    return out


def tokens(p):
    if p == "":
        return []
    return [unescape(t) for t in p.split("/")[1:]]


def spell(toks):
    return "".join(["/" + escape(t) for t in toks])


def is_digit(c):
    return "0" <= c <= "9"


def canonical(tok):
    """Section 4 array-index."""
    if tok == "":
        return False
    if tok[0] == "0":
        return len(tok) == 1
    for c in tok:
        if not is_digit(c):
            return False
    return True


def negative(tok):
    """The documented negative-index extension."""
    return len(tok) > 1 and tok[0] == "-" and tok[1] != "0" and canonical(tok[1:])


def number(t):
    """The value of a canonical index; one beyond every array if it is longer
    than any index can be."""
    return int(t) if len(t) < 30 else 10 ** 30


def step(cur, t):
    if isinstance(cur, dict):
        if t in cur:
            return OK, cur[t]
        if t.startswith("#") or t.startswith("~"):
            return EXT, None
        return FAIL, None
    if isinstance(cur, list):
        if canonical(t):
            n = number(t)
            if n < len(cur):
                return OK, cur[n]
            return FAIL, None
        if t.startswith("#") or t.startswith("~") or negative(t):
            return EXT, None
        return FAIL, None
    if t.startswith("#") or t.startswith("~"):
        return EXT, None
    return FAIL, None


def resolve(doc, toks):
    cur = doc
    for t in toks:
        st, cur = step(cur, t)
        if st != OK:
            return st, None
    return OK, cur
