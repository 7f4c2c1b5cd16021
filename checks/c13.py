"""C13: the documented non-standard syntax means what the documentation says."""
from checks.queries import TEXTS, textual, deep, digits, doc_spec, same_nodes, segments, tall, wide
from checks.util import attempt, name
from ref import query as Q
from ref import spell as S
from se.harness import Scenario

SELF = ("q", ("@", []))
KEY = ("key",)
UNDEF = ("undef",)
WILD = ("child", [("wild",)])


def path(root, *names):
    return ("q", (root, [("child", [("name", n) if isinstance(n, str) else ("index", n)]) for n in names]))


def at(*names):
    return path("@", *names)


def root(*names):
    return path("$", *names)


def extra(*names):
    return path("_", *names)


def rel(*segs):
    return ("q", ("@", list(segs)))


def filt(e, seg="child"):
    return ("$", [(seg, [("filter", e)])])


def values_agree(g, got, want, label="findall"):
    g.require(len(got) == len(want), label + ": number of values")
    for v, w in zip(got, want):
        if isinstance(w[1], (list, dict)) and len(w[0]) == 0:
            g.require(g.eq(v, w[1]), label + ": another value")
        else:
            g.require(g.same(v, w[1]), label + ": another value")


def check(g, lib, query, doc, text=None, style=S.DEFAULT, ctx=None, how="findall"):
    if text is None:
        text = S.query(query, style)
    want = Q.run(query, doc, g.eq, ctx)
    kw = {} if ctx is None else {"filter_context": ctx}
    kind, got = attempt(lib.findall, text, doc, **kw)
    g.trace([text, kind, len(want)])
    if kind == "err":
        g.fail("a documented query fails: " + name(got))
    values_agree(g, got, want)


# -- leading root, bare names -------------------------------------------------

def rootless(k, w, spec):
    def fn(g, lib):
        """No leading root identifier, with and without dots, in compounds."""
        segs = segments(g, "s", k, ("a", "b"), w, kinds=("name", "index", "wild", "slice"), idx=(0, -1), slices=(("slice", None, None, -1),))
        st = S.Style(short=g.flag("short"))
        full = S.query(("$", segs), st)
        text = full[1:]
        if text[:1] == "." and text[:2] != ".." and g.flag("nodot"):
            text = text[1:]
        doc = g.json("doc", spec(g))
        want = Q.run(("$", segs), doc, g.eq)
        form = g.choice("form", ("alone", "left", "right"))
        g.assume(form == "alone" or len(segs) > 0)
        if form == "left":
            text = text + " | $.a"
            want = want + Q.run(("$", [("child", [("name", "a")])]), doc, g.eq)
        elif form == "right":
            text = "$.a | " + text
            want = Q.run(("$", [("child", [("name", "a")])]), doc, g.eq) + want
        kind, got = attempt(lib.findall, text, doc)
        g.trace([text, kind])
        if kind == "err":
            g.fail("a query without leading root fails: " + name(got))
        same_nodes(g, got, want, "without leading root")

    return fn


def barename(g, nm, n):
    """Any name that may be written bare; reserved words are exempt."""
    t = g.str(nm, 1, n, g.minus(g.ALPHABET, "".join(map(chr, range(45))) + "./"))
    g.assume(S.name_first(t[0]))
    for c in t[1:]:
        g.assume(g.either(S.name_char(c), c == "-"))
    return t


BARE = ("$[%s]", "[%s]", "%s", ".%s", "$.%s", "$..[%s]", "$['z',%s]", "$[%s,'z']", "$[ %s ]", "%s[0]", "%s.z", "$.z | %s", "$[?@[%s]]", "$[?@.%s == 1]", "$.z.%s")


def bare(n):
    def fn(g, lib):
        """Bare names of any characters, wherever they may stand."""
        t = barename(g, "t", n)
        g.assume(t != "_")
        for w in S.RESERVED:
            g.assume(t != w)
        bare_check(g, lib, t)

    return fn


HEADS = ("in", "or", "and", "not", "true", "False", "nil", "Null", "None", "contains", "undefined", "missing", "_")


def prefixed(g, lib):
    """Bare names that begin with a reserved word or identifier."""
    h = g.choice("head", HEADS)
    c = g.str("c", 1, 2, g.minus(g.ALPHABET, "".join(map(chr, range(45))) + "./"))
    for x in c:
        g.assume(g.either(S.name_char(x), x == "-"))
    if h in ("in", "or", "and", "not", "contains"):
        # "-1" after an operator word is a number
        g.assume(g.neg(g.both(c[0] == "-", g.either(len(c) == 1, "0" <= c[-1:] <= "9"))) if len(c) > 1 else c[0] != "-")
    g.assume(h + c != "not")
    for w in S.RESERVED:
        g.assume(h + c != w)
    bare_check(g, lib, h + c)


def bare_check(g, lib, t):
    form = g.choice("form", BARE)
    if t == "z":
        return
    text = form.replace("%s", t)
    inner = {t: [7], "z": {t: 2}}
    if "?@" in form:
        doc = [{t: 1}, {"z": 1}, {t: 2}]
        want = [doc[0]] if "==" in form else [doc[0], doc[2]]
    else:
        doc = inner
        want = {
            "$['z',%s]": [doc["z"], doc[t]], "$[%s,'z']": [doc[t], doc["z"]], "%s[0]": [7], "%s.z": [], "$.z | %s": [doc["z"], doc[t]],
            "$.z.%s": [2], "$..[%s]": [doc[t], 2],
        }.get(form, [doc[t]])
    kind, got = attempt(lib.findall, text, doc)
    g.trace([form, kind])
    if kind == "err":
        g.fail("a bare name is not accepted: " + name(got))
    g.require(len(got) == len(want), "a bare name selects something else")
    for a, b in zip(got, want):
        g.require(g.eq(a, b), "a bare name selects something else")


# -- keys, fake root, key and context identifiers ------------------------------

def keys(k, w, spec):
    def fn(g, lib):
        """The keys selector among others, in lists and after "..". """
        segs = segments(g, "s", k, ("a",), w, kinds=("keys", "wild", "index") if k * w < 4 else ("keys", "name", "wild", "index"), idx=(0,))
        g.assume(any([any([x[0] == "keys" for x in sels]) for _, sels in segs]))
        check(g, lib, ("$", segs), g.json("doc", spec(g)), style=S.Style(short=g.flag("short")))

    return fn


def keys_buried(g, lib):
    """Keys selectors and key tests at every depth down to six, "" among the names."""
    doc, segs = deep(g)
    k = g.choice("k", (
        ("child", [("keys",)]), ("desc", [("keys",)]), ("child", [("keys",), ("wild",)]), ("child", [("name", ""), ("keys",)]),
        ("child", [("filter", ("cmp", "==", KEY, ("lit", "")))]), ("desc", [("filter", ("cmp", "<", KEY, ("lit", 1)))]),
        ("child", [("filter", ("cmp", "in", KEY, ("list", ["a", 1])))]), ("child", [("filter", ("cmp", "==", SELF, extra("x")))]),
        ("child", [("filter", ("cmp", "in", ("lit", 0), SELF))]), ("child", [("filter", ("cmp", "==", at("a"), UNDEF))]),
    ))
    segs.append(k)
    head = "^" if g.flag("fake") else "$"
    if head == "^":
        segs = [("child", [("index", 0)])] + segs
    check(g, lib, (head, segs), doc, style=S.Style(short=g.flag("short")), ctx={"x": g.choice("x", (0, 1, [2]))})


FAKE = (
    ("^", []), ("^", [("child", [("index", 0)])]), ("^", [WILD]), ("^", [WILD, WILD]), ("^", [("desc", [("wild",)])]),
    ("^", [("child", [("filter", at("a"))])]), ("^", [("child", [("filter", ("not", at("a")))])]),
    ("^", [("child", [("filter", ("cmp", "==", at("a"), ("lit", 1)))])]), ("^", [("child", [("filter", ("cmp", "==", SELF, root()))])]),
    ("^", [("child", [("filter", ("cmp", "==", at("a"), root("a")))])]), ("^", [("child", [("filter", ("cmp", ">", ("fn", "length", [SELF]), ("lit", 1)))])]),
    ("^", [("child", [("filter", ("cmp", "==", KEY, ("lit", 0)))])]), ("^", [("child", [("filter", at("a"))]), ("child", [("name", "a")])]),
    ("^", [("child", [("filter", rel(("child", [("filter", ("cmp", "==", SELF, root("a")))])))])]),
    ("^", [("child", [("name", "a")])]), ("^", [("child", [("slice", None, None, -1)])]), ("^", [("desc", [("name", "a")])]),
    ("$", [("child", [("filter", ("cmp", "==", SELF, path("^", 0, "a")))])]), ("$", [("child", [("filter", path("^", 0))])]),
    ("$", [("child", [("filter", ("cmp", "==", ("fn", "count", [("q", ("^", [("desc", [("wild",)])]))]), ("lit", 2)))])]),
    ("$", [("child", [("filter", ("q", ("^", [("child", [("filter", at("a"))])])))])]), ("$", [("child", [("filter", path("^", "a"))])]),
)


def fake(spec):
    def fn(g, lib):
        """The fake root, at the head of a query and inside filters."""
        check(g, lib, g.choice("q", FAKE), g.json("doc", spec(g)))

    return fn


def current_key(w):
    def fn(g, lib):
        """# is the name or index of the candidate, at every depth."""
        t = g.str("t", 0, 1)
        lit = g.choice("lit", (None, 0, 1, True))
        k = ("lit", t if lit is None else lit)
        e = g.choice("e", (
            lambda: ("cmp", "==", KEY, k), lambda: ("cmp", "!=", k, KEY), lambda: ("cmp", "<", KEY, k), lambda: ("cmp", "==", KEY, SELF),
            lambda: ("cmp", "in", KEY, ("list", ["a", 0])), lambda: rel(("child", [("filter", ("cmp", "==", KEY, k))])),
            lambda: ("and", ("cmp", "==", KEY, k), rel(("child", [("filter", ("not", ("paren", ("cmp", "==", KEY, k))))]))),
            lambda: ("cmp", "==", ("fn", "count", [rel(("child", [("filter", ("cmp", "==", KEY, k))]))]), ("lit", 1)),
            lambda: ("cmp", "==", ("fn", "length", [KEY]), ("lit", 1)), lambda: ("fn", "match", [KEY, ("rx", ("ch", "a"))]),
            lambda: ("cmp", "==", KEY, at("k")), lambda: ("cmp", "==", KEY, UNDEF), lambda: ("cmp", "=~", KEY, ("re", ("ch", "a"), "")),
        ))()
        doc = g.json("doc", doc_spec(g, 2, w, cwidth=1, kinds=("int", "str", "list", "dict"), keys=("a", "k"), ints=(0, 1), strs=("a", ""), root=("list", "dict")))
        if g.flag("free"):
            doc = {g.str("n", 0, 1): [0], "zz": {"a": 0}}
        check(g, lib, filt(e, g.choice("seg", ("child", "desc"))), doc, text=None)

    return fn


CONTEXT = (
    extra("x"), ("cmp", "==", SELF, extra("x")), ("cmp", "==", extra("x"), extra("y")), ("cmp", "in", SELF, extra("l")), ("not", extra("l", 0)),
    rel(("child", [("filter", ("cmp", "==", SELF, extra("x")))])), rel(("child", [("filter", rel(("child", [("filter", ("cmp", "==", SELF, extra("x")))])))])),
    ("cmp", "==", ("fn", "count", [rel(("child", [("filter", ("cmp", "!=", SELF, extra("x")))]))]), ("lit", 1)),
    ("cmp", "==", ("fn", "length", [extra("l")]), ("lit", 1)), ("q", ("$", [("child", [("filter", ("cmp", "==", SELF, extra("x")))])])),
    ("q", ("_", [("name" and "child", [("name", "l")]), ("child", [("filter", ("cmp", "==", SELF, root(0)))])])),
    ("q", ("_", [("child", [("name", "l")]), ("child", [("filter", ("cmp", "==", SELF, extra("x")))])])),
    ("cmp", "==", ("fn", "value", [("q", ("_", [("desc", [("name", "x")])]))]), SELF), ("q", ("^", [("child", [("filter", extra("x"))])])),
    ("cmp", "==", KEY, extra("x")), ("fn", "match", [SELF, extra("x")]) and ("cmp", "==", extra(), UNDEF), ("cmp", "==", extra("x", "a"), at("a")),
)


def context(spec):
    def fn(g, lib):
        """_ reads the caller's mapping; without one it is empty."""
        e = g.choice("e", CONTEXT)
        ctx = None
        if g.flag("given"):
            ctx = {}
            if g.flag("hasx"):
                ctx["x"] = g.json("x", g.Spec(kinds=("null", "int", "str", "dict"), depth=1, width=1, keys=("a",), ints=(0, 1), strs=("a",)))
            if g.flag("hasl"):
                ctx["l"] = g.json("l", g.Spec(kinds=("list",), depth=1, width=1, ints=(0, 1), child=g.Spec(kinds=("int", "str"), ints=(0, 1), strs=("a",))))
        doc = g.json("doc", spec(g))
        seg = g.choice("seg", ("$", "^"))
        check(g, lib, (seg, [("child", [("filter", e)])]), doc, ctx=ctx)

    return fn


def texts(g, lib):
    """Strings that are JSON texts, in the document and the context, are strings."""
    v = g.choice("v", TEXTS[:4])
    e = g.choice("e", (
        extra("x", "a"), extra("x", 0), extra("x", 0, "a"), ("q", ("_", [("child", [("name", "x")]), ("child", [("wild",)])])), ("cmp", "==", SELF, extra("x")),
        ("cmp", "in", SELF, extra("x")), ("cmp", "in", ("lit", "a"), SELF), ("cmp", "in", extra("x"), SELF), ("cmp", "in", ("lit", 1), SELF),
        ("cmp", "==", ("fn", "length", [extra("x")]), ("fn", "length", [SELF])), ("cmp", "==", KEY, ("lit", "a")), ("cmp", "contains", SELF, ("lit", "a")),
    ))
    check(g, lib, (g.choice("head", ("$", "^")), [("child", [("filter", e)])]), textual(g), ctx={"x": v})


def wider(g, lib):
    """Keys, current keys, contexts and memberships over long arrays and objects."""
    t, v = digits(g, "d", 2, False)
    n, s = ("lit", v), ("lit", t)
    ctx = None
    q = g.choice("q", (
        ("$", [("child", [("keys",)])]), ("$", [("desc", [("keys",)])]), ("$", [("child", [("keys",), ("wild",), ("keys",)])]),
        ("$", [("child", [("filter", ("cmp", "==", KEY, n))])]), ("$", [("child", [("filter", ("cmp", "==", s, KEY))])]),
        ("$", [("child", [("filter", ("cmp", "<", KEY, n))])]), ("$", [("desc", [("filter", ("cmp", ">=", KEY, s))])]),
        ("$", [("child", [("filter", ("cmp", "in", n, root()))])]), ("$", [("child", [("filter", ("cmp", "contains", root(), s))])]),
        ("^", [("child", [("filter", ("cmp", "in", n, SELF))])]), ("$", [("child", [("filter", ("cmp", "in", SELF, extra("w")))])]),
        ("$", [("child", [("filter", ("cmp", "==", SELF, extra("w", 10)))])]), ("^", [("child", [("filter", ("cmp", "==", ("fn", "length", [SELF]), n))])]),
        ("$", [("child", [("filter", ("cmp", "!=", at("a"), n))])]), ("$", [("child", [("filter", ("cmp", "==", at(1), UNDEF))])]),
    ))
    doc = wide(g)
    check(g, lib, q, doc, ctx={"w": list(range(12))})


def rootless_long(g, lib):
    """Longer queries without leading root identifier, bare names throughout."""
    n = g.count("n", 2, 5)
    names = [g.choice("n%d" % (i % 3), ("a", "b-c", "_x", "1")) for i in range(n)]
    text = ""
    doc = 7
    segs = []
    for i, x in enumerate(names):
        f = g.choice("f%d" % (i % 2), (".%s", "[%s]", "['%s']", "..%s"))
        g.assume(x != "1" or f in ("[%s]", "['%s']"))
        text = text + f.replace("%s", x)
        sel = ("index", 1) if x == "1" and f == "[%s]" else ("name", x)
        segs.append(("desc" if f[:2] == ".." else "child", [sel]))
    for x in names[::-1]:
        doc = {x: doc, "z": [doc]}
    if g.flag("array"):
        doc = {names[0]: [0, doc.get(names[0])]}
    if text[0] == "." and text[:2] != ".." and g.flag("nodot"):
        text = text[1:]
    check(g, lib, ("$", segs), doc, text=text)


# -- operators -----------------------------------------------------------------

KINDS = ("null", "true", "false", "int", "float", "str", "list", "dict")


def member(depth, kinds):
    def fn(g, lib):
        """in and contains with operands of every kind, present or absent."""
        c = {}
        AB1 = g.ranges((49, 49), (97, 98))
        if not g.flag("no_a"):
            c["a"] = g.json("a", g.Spec(kinds=kinds, depth=1, width=1, keys=("k",), slen=1, ints=(0, 1), floats=(0, 4), alpha=AB1))
        if not g.flag("no_b"):
            c["b"] = g.json("b", g.Spec(kinds=kinds, depth=depth, width=2, klen=1, slen=2, ints=(0, 1), alpha=AB1, kalpha=AB1, floats=(0, 4),
                                        child=g.Spec(kinds=kinds, depth=depth - 1, width=1, keys=("k",), slen=1, alpha=AB1, ints=(0, 1), floats=(0, 4))))
        op = g.choice("op", ("in", "contains"))
        a, b = at("a"), at("b")
        e = ("cmp", op, a, b) if op == "in" else ("cmp", op, b, a)
        check(g, lib, filt(e), [c])

    return fn


def member_literal(g, lib):
    """Membership in list literals, strings, of literals, keys and results."""
    v = g.json("v", g.Spec(kinds=KINDS, depth=1, width=1, keys=("a",), slen=2, ints=(0, 1), floats=(0, 4)))
    e = g.choice("e", (
        ("cmp", "in", SELF, ("list", [])), ("cmp", "in", SELF, ("list", [1])), ("cmp", "in", SELF, ("list", ["a", None, True, 0.5])),
        ("cmp", "contains", ("list", [False, 1.0, "b"]), SELF), ("cmp", "in", SELF, ("lit", "ab")), ("cmp", "contains", ("lit", "ab"), SELF),
        ("cmp", "in", ("lit", "a"), SELF), ("cmp", "in", ("lit", None), SELF), ("cmp", "contains", SELF, ("lit", 1)), ("cmp", "contains", SELF, ("lit", "a")),
        ("cmp", "in", ("lit", "a"), ("lit", "b")), ("cmp", "in", ("fn", "length", [SELF]), ("list", [1, 2])), ("not", ("paren", ("cmp", "in", SELF, ("list", ["a"])))),
        ("and", ("cmp", "in", SELF, ("list", ["a", 1])), ("cmp", "contains", ("list", [1]), SELF)), ("cmp", "in", KEY, ("list", [0])),
        ("cmp", "in", UNDEF, SELF), ("cmp", "contains", SELF, UNDEF), ("cmp", "in", ("fn", "value", [rel(("desc", [("name", "zz")]))]), SELF),
        ("or", ("cmp", "in", ("lit", True), SELF), ("cmp", "==", SELF, ("lit", 0))), ("cmp", "contains", SELF, KEY),
    ))
    check(g, lib, filt(e), [v])


C = lambda c: ("ch", c)
RX = (
    C("a"), ("cat", [C("a"), C("B")]), ("alt", [C("a"), C("b")]), ("star", C("a")), ("any",), ("cat", [C("a"), ("any",)]), ("set", False, "ab"),
    ("cat", [("star", ("any",)), C("b")]), ("cat", [("bol",), C("a"), ("eol",)]), ("cat", [C("a"), ("eol",), ("any",), ("bol",), C("b")]), ("digit",),
    ("alt", [C("a"), ("cat", [C("a"), C("b")])]), ("plus", ("digit",)), ("alt", [("cat", [("bol",), C("b")]), C("a"), ("cat", [])]), ("cat", [C("a"), ("eol",), C("\\n"), ("bol",)]),
)


def regex(flags, slen):
    def fn(g, lib):
        """=~ matches whole strings, honours flags, is false for other values."""
        r = g.choice("r", RX[:14])
        f = g.choice("f", flags)
        e = ("cmp", "=~", SELF, ("re", r, f))
        if g.flag("neg"):
            e = ("not", ("paren", e))
        alpha = g.ranges((10, 10), (48, 57), (65, 67), (97, 99), (0x660, 0x662), (233, 233))
        v = g.json("v", g.Spec(kinds=("null", "int", "str", "list", "dict"), depth=1, width=1, slen=slen, keys=("a",), ints=(0, 0), alpha=alpha))
        check(g, lib, filt(e), [v])

    return fn


def regex_text(g, lib):
    """Pattern texts: escaped slashes, quotes, brackets, blanks, commas."""
    t, s = g.choice("t", ((r"a\/b", "a/b"), (r"\/", "/"), (r"a\\", "a\\"), (r"[\]]", "]"), ("a b", "a b"), (",", ","), ("'", "'"), ('"', '"'), (r"\[", "["),
                          (r"a\.b", "a.b"), ("a]", "a]"), (r"\)", ")"), ("é", "é"), (r"\u0061", "a"), (r"\x61", "a"), ("a && b", "a && b"), (r"\d", "5")))
    v = g.choice("v", (s, s + "x", "x" + s, "", 1))
    form = g.choice("form", ("$[?@ =~ /%s/]", "$[?@=~/%s/]", "$[?@ =~ /%s/i]", "$[?@ =~ /%s/ && @ =~ /%s/]", "$[?(@ =~ /%s/) || @ == 1.5]", "$[?!(@ =~ /%s/)]"))
    text = form.replace("%s", t)
    kind, got = attempt(lib.findall, text, [v])
    g.trace([text, kind])
    if kind == "err":
        g.fail("a regular expression literal fails: " + name(got))
    g.require((len(got) == 1) == ((v == s) != ("!" in form)), "=~ gives another answer")


LEAVES = (at("a"), at("b"), ("cmp", "!=", at("c"), ("lit", 1)), ("cmp", "==", at("a"), ("lit", None)), ("cmp", "==", at("b"), ("lit", True)),
          ("cmp", "!=", at("c"), ("lit", False)))


def tree(g, nm, d, leaves=LEAVES):
    k = g.choice(nm + "k", ("leaf", "and", "or", "not", "paren") if d else ("leaf",))
    if k == "leaf":
        return g.choice(nm, leaves)
    if k == "not":
        a = tree(g, nm + "n", d - 1, leaves)
        return ("not", a if a[0] in ("q", "paren", "fn") else ("paren", a))
    if k == "paren":
        return ("paren", tree(g, nm + "p", d - 1, leaves))
    return (k, tree(g, nm + "l", d - 1, leaves), tree(g, nm + "r", d - 1, leaves))


ALIASES = (
    {"&&": "and", "||": "or", "!": "not", "!=": "<>"},
    {"&&": "and", "null": "nil", "true": "True", "false": "False"},
    {"||": "or", "null": "none", "!=": "<>"}, {"!": "not", "null": "Null"}, {"null": "Nil", "!": "not"}, {"null": "None", "true": "True"}, {"!=": "<>"},
)
KINDS6 = ("null", "true", "false", "int")


def aliases(d, blanks):
    def fn(g, lib):
        """Words and capitalised literals for operators and literals."""
        e = tree(g, "e", d)
        b = g.choice("blank", blanks)
        docs = [{"a": v} for v in (None, 0, 1, False)] + [{"b": v} for v in (True, 1, None)] + [{"c": v} for v in (1, True, False, 0)] + [
            {}, {"a": None, "b": True}, {"a": 0, "c": 1}, {"b": 1, "c": False}, {"a": None, "b": True, "c": 1}]
        st = S.Style(short=True, blank=lambda: b, alias=g.choice("alias", ALIASES))
        check(g, lib, filt(e), docs, style=st)

    return fn


def tight(g, lib):
    """Word operators next to parentheses, strings and brackets."""
    text, e = g.choice("t", (
        ("$[?not(@.a)]", ("not", at("a"))), ("$[?not@.a]", ("not", at("a"))), ("$[?@.a and(@.b)]", ("and", at("a"), at("b"))),
        ("$[?(@.a)or(@.b)]", ("or", at("a"), at("b"))), ("$[?@['a']and@['b']]", ("and", at("a"), at("b"))), ("$[?(@.a)and not@.b]", ("and", at("a"), ("not", at("b")))),
        ("$[?not not@.a]", at("a")), ("$[?!not@.a]", at("a")), ("$[?(not(@.a or@.b))]", ("not", ("or", at("a"), at("b")))),
        ("$[?@.a==1and@.b]", ("and", ("cmp", "==", at("a"), ("lit", 1)), at("b"))) if False else ("$[?@.a==1 and@.b]", ("and", ("cmp", "==", at("a"), ("lit", 1)), at("b"))),
        ("$[?@.a<>1]", ("cmp", "!=", at("a"), ("lit", 1))), ("$[?'a'in@]", ("cmp", "in", ("lit", "a"), SELF)), ("$[?@ contains'a']", ("cmp", "contains", SELF, ("lit", "a"))),
        ("$[?@.a in[1,2]]", ("cmp", "in", at("a"), ("list", [1, 2]))), ("$[?@.a ==null]", ("cmp", "==", at("a"), ("lit", None))), ("$[?None==@.a]", ("cmp", "==", at("a"), ("lit", None))),
        ("$[?@.a and-1<@.b]", ("and", at("a"), ("cmp", "<", ("lit", -1), at("b")))), ("$[?@.a or-1<@.b]", ("or", at("a"), ("cmp", "<", ("lit", -1), at("b")))),
    ))
    doc = [g.json("v", g.Spec(kinds=("dict",), depth=1, width=2, keys=("a", "b"), child=g.Spec(kinds=("null", "int", "false"), ints=(0, 1))))]
    check(g, lib, filt(e), doc, text=text)


OPERANDS = (at("a"), SELF, at("b", 0), root(0), root("zz"), extra("x"), extra("zz"), KEY, ("fn", "value", [rel(("desc", [("name", "a")]))]), at(-1),
            path("^", 0, "a"), ("fn", "length", [at("a")]))


def undefined(spec):
    def fn(g, lib):
        """Comparison with undefined or missing is the existence test."""
        a = g.choice("a", OPERANDS)
        op = g.choice("op", ("==", "!="))
        st = S.Style(alias={"undefined": g.choice("word", ("undefined", "missing")), "!=": g.choice("ne", ("!=", "<>"))})
        e = ("cmp", op, a, UNDEF) if g.flag("right") else ("cmp", op, UNDEF, a)
        if a[0] == "q" and g.flag("test"):
            # the test it stands for
            want = a if op == "!=" else ("not", a)
        else:
            want = e
        w = g.choice("wrap", (lambda x: x, lambda x: ("not", ("paren", x)), lambda x: ("and", at("a"), x), lambda x: rel(("child", [("filter", x)]))))
        doc = g.json("doc", spec(g))
        check(g, lib, filt(w(want)), doc, text=S.query(filt(w(e)), st), ctx={"x": None})

    return fn


def literals(g, lib):
    """Every spelling of null, true and false, in comparisons and lists."""
    word, v = g.choice("w", (("null", None), ("Null", None), ("nil", None), ("Nil", None), ("none", None), ("None", None),
                             ("true", True), ("True", True), ("false", False), ("False", False)))
    x = g.json("x", g.Spec(kinds=KINDS, depth=1, width=1, keys=("a",), slen=1, ints=(0, 1), floats=(0, 4)))
    form, e = g.choice("form", (
        ("$[?@==%s]", ("cmp", "==", SELF, ("lit", v))), ("$[?%s!=@]", ("cmp", "!=", SELF, ("lit", v))), ("$[?@ in [%s]]", ("cmp", "in", SELF, ("list", [v]))),
        ("$[?@ in [0,%s ]]", ("cmp", "in", SELF, ("list", [0, v]))), ("$[?@<=%s]", ("cmp", "<=", SELF, ("lit", v))), ("$[?@ contains %s]", ("cmp", "contains", SELF, ("lit", v))),
        ("$[?@==%s&&@==%s]", ("cmp", "==", SELF, ("lit", v))), ("$[?length(%s)==@]", ("cmp", "==", SELF, UNDEF)),
    ))
    check(g, lib, filt(e), [x], text=form.replace("%s", word))


S1 = lambda g: doc_spec(g, 2, 1, keys=("a", "b"), kinds=("int", "list", "dict"), ints=(0, 0), cwidth=1, root=("list", "dict"))
SK1 = lambda g: doc_spec(g, 2, 1, klen=1, kinds=("int", "list", "dict"), ints=(0, 0), root=("list", "dict", "int"))
SK = lambda g: doc_spec(g, 2, 2, klen=1, kinds=("int", "str", "list", "dict"), ints=(0, 0), strs=("s",), cwidth=1, root=("list", "dict", "int"))
SF = lambda g: doc_spec(g, 2, 2, keys=("a", "b"), kinds=("null", "int", "list", "dict"), ints=(0, 1), cwidth=1, root=("list", "dict", "int", "null"))
SC = lambda g: doc_spec(g, 2, 2, keys=("a",), kinds=("int", "str", "list", "dict"), ints=(0, 1), strs=("a",), cwidth=1, root=("list", "dict"))
SU = lambda g: doc_spec(g, 2, 1, keys=("a", "b"), kinds=("null", "false", "int", "list", "dict"), ints=(0, 0), root=("list", "dict"))
S3 = lambda g: doc_spec(g, 3, 3, keys=("a", "b"), kinds=("null", "false", "int", "str", "list", "dict"), ints=(0, 1), strs=("", "a"), cwidth=2, root=("list", "dict", "int", "null"))

SCENARIOS = [
    Scenario("rootless", rootless(1, 2, S1)),
    Scenario("rootless-wide", rootless(1, 2, S3), tier="thorough"),
    Scenario("rootless2", rootless(2, 2, S3), tier="thorough"),
    Scenario("bare", bare(2)),
    Scenario("bare3", bare(4), tier="thorough"),
    Scenario("prefixed", prefixed),
    Scenario("keys", keys(2, 1, SK1)),
    Scenario("keys-buried", keys_buried),
    Scenario("keys2", keys(2, 2, S3), tier="thorough"),
    Scenario("fake-root", fake(SF)),
    Scenario("fake-root3", fake(S3), tier="thorough"),
    Scenario("current-key", current_key(1)),
    Scenario("current-key2", current_key(2), tier="thorough"),
    Scenario("context", context(SC)),
    Scenario("context3", context(S3), tier="thorough"),
    Scenario("texts", texts),
    Scenario("wide", wider),
    Scenario("rootless-long", rootless_long),
    Scenario("member", member(1, KINDS)),
    Scenario("member-deep", member(2, KINDS), tier="thorough"),
    Scenario("member-literal", member_literal),
    Scenario("regex", regex(("", "i", "s", "m", "a"), 2)),
    Scenario("regex-flags", regex(("im", "ims", "sa", "aims", "si"), 3), tier="thorough"),
    Scenario("regex-text", regex_text),
    Scenario("aliases", aliases(1, (" ", ""))),
    Scenario("aliases2", aliases(2, (" ",)), tier="thorough"),
    Scenario("tight", tight),
    Scenario("undefined", undefined(SU)),
    Scenario("undefined3", undefined(S3), tier="thorough"),
    Scenario("literals", literals),
]
