"""C02: filter expressions select exactly what RFC 9535 2.3.5 and 2.4 say."""
from checks.queries import aliased, textual, blank1, blanks_at, digits, doc_spec, same_nodes, tall, wide
from checks.util import attempt, name
from ref import query as Q
from ref import spell as S
from se.harness import Scenario

OPS = ("==", "!=", "<", "<=", ">", ">=")
SELF = ("q", ("@", []))
ROOT = ("q", ("$", []))


def at(*names):
    return ("q", ("@", [("child", [("name", n) if isinstance(n, str) else ("index", n)]) for n in names]))


def root(*names):
    return ("q", ("$", [("child", [("name", n) if isinstance(n, str) else ("index", n)]) for n in names]))


def rel(*segs):
    return ("q", ("@", list(segs)))


WILD = ("child", [("wild",)])
DESC_A = ("desc", [("name", "a")])


def check(g, lib, query, doc, text=None, style=S.DEFAULT):
    if text is None:
        text = S.query(query, style)
    want = Q.run(query, doc, g.eq)
    kind, got = attempt(lib.findall, text, doc)
    g.trace([text, kind, len(want)])
    if kind == "err":
        g.fail("a valid query fails: " + name(got))
    same_nodes(g, got, want, "findall")


def filt(e):
    return ("$", [("child", [("filter", e)])])


ALL = ("null", "false", "true", "int", "float", "str", "list", "dict")


def compare(depth, width, kinds, ops=OPS):
    def fn(g, lib):
        """@.a OP @.b for values of every kind, present or absent."""
        op = g.choice("op", ops)
        c = {}
        if not g.flag("no_a"):
            c["a"] = g.json("a", g.Spec(kinds=kinds, depth=depth, width=width, keys=("k", "l"), slen=1, ints=(0, 1), floats=(0, 4)))
        if not g.flag("no_b"):
            c["b"] = g.json("b", g.Spec(kinds=kinds, depth=depth, width=width, keys=("k", "l"), slen=1, ints=(0, 1), floats=(0, 4)))
        doc = {"x": c} if g.flag("obj") else [c]
        check(g, lib, filt(("cmp", op, at("a"), at("b"))), doc)

    return fn


def lits(g, nm):
    k = g.choice(nm + "kind", ("null", "true", "false", "int", "str"))
    if k == "int":
        t, v = digits(g, nm + "i", 1)
        return t, v
    if k == "str":
        t = g.str(nm + "s", 0, 2, g.minus(g.ALPHABET, "\\"))
        g.assume(S.unquote(t, "'") is not None)
        return "'" + t + "'", t
    return k, {"null": None, "true": True, "false": False}[k]


def literal(g, lib):
    """A literal against any child, either side; the child is the operand itself."""
    op = g.choice("op", OPS)
    t, v = lits(g, "l")
    doc = [g.json("v", g.Spec(kinds=ALL, depth=1, width=1, klen=1, slen=2, ints=(-1, 2), floats=(-4, 4)))]
    if g.flag("left"):
        check(g, lib, filt(("cmp", op, ("lit", v), SELF)), doc, "$[?" + t + op + "@]")
    else:
        check(g, lib, filt(("cmp", op, SELF, ("lit", v))), doc, "$[?@" + op + t + "]")


def literal_literal(g, lib):
    """Two literals."""
    op = g.choice("op", OPS)
    a, x = lits(g, "l")
    b, y = lits(g, "r")
    check(g, lib, filt(("cmp", op, ("lit", x), ("lit", y))), [0], "$[?" + a + " " + op + " " + b + "]")


def number(g, lib):
    """Number literals: fraction and exponent forms, against ints and floats."""
    t = g.choice("sign", ("", "-")) + g.str("int", 1, 1, g.ranges((48, 57)))
    if g.flag("frac"):
        t = t + "." + g.choice("fr", ("0", "5", "25", "50"))
    if g.flag("exp"):
        t = t + g.choice("e", ("e", "E")) + g.choice("es", ("", "+", "-")) + g.choice("ed", ("0", "1", "01"))
    v = float(t)
    op = g.choice("op", ("==", "<", ">="))
    w = g.json("w", g.Spec(kinds=("int", "float"), ints=(-10, 90), floats=(-400, 400)))
    check(g, lib, filt(("cmp", op, SELF, ("lit", v))), [w], "$[?@" + op + t + "]")


def bignum(g, lib):
    """Integer literals of many digits are not rounded."""
    base = g.choice("base", ("900719925474099", "1844674407370955161", "123456789012345678901234567890"))
    t = g.choice("sign", ("", "-")) + base + g.str("d", 1, 1, g.ranges((48, 57)))
    v = int(t)
    d = g.int("delta", -1, 1)
    op = g.choice("op", OPS)
    check(g, lib, filt(("cmp", op, SELF, ("lit", v))), [v + d], "$[?@" + op + t + "]")


EXISTS = (SELF, at("a"), at(0), at("a", "b"), at(-1), rel(WILD), rel(DESC_A), rel(("child", [("slice", None, 1, None)])),
          rel(("child", [("name", "a"), ("index", 0)])), root(), root("a"), root(0))


def existence(g, lib):
    """Existence tests, plain and negated, whatever the value found is."""
    e = g.choice("q", EXISTS)
    neg = g.choice("neg", ("", "!", "!!"))
    if neg == "!":
        e = ("not", e)
    elif neg == "!!":
        e = ("not", ("paren", ("not", e)))
    doc = g.json("doc", doc_spec(g, 2, 2, cwidth=1, keys=("a", "b"), root=("list", "dict", "int"), strs=("", "x"), ints=(0, 1),
                                 kinds=("null", "false", "int", "str", "list", "dict")))
    check(g, lib, filt(e), doc)


LEAVES = (at("a"), at("b"), ("cmp", "==", at("c"), ("lit", 1)), ("cmp", "<", at("c"), at("a")))


def leaf(g, nm):
    return g.choice(nm, LEAVES)


def tree(g, nm, d):
    k = g.choice(nm + "k", ("leaf", "and", "or", "not", "paren") if d else ("leaf",))
    if k == "leaf":
        return leaf(g, nm)
    if k == "not":
        a = tree(g, nm + "n", d - 1)
        return ("not", a if a[0] in ("q", "paren", "fn") else ("paren", a))
    if k == "paren":
        return ("paren", tree(g, nm + "p", d - 1))
    return (k, tree(g, nm + "l", d - 1), tree(g, nm + "r", d - 1))


def logic(d):
    def fn(g, lib):
        """Precedence and grouping of ! && || and comparisons."""
        e = tree(g, "e", d)
        docs = [{}, {"a": 2}, {"b": 0}, {"c": 1}, {"a": 2, "b": 0}, {"a": 2, "c": 1}, {"b": 0, "c": 1},
                {"a": 2, "b": 0, "c": 1}, {"a": 1, "c": 2}]
        check(g, lib, filt(e), docs)

    return fn


def chain(n):
    def fn(g, lib):
        """Unparenthesised chains of && and || with optional negations."""
        names = "abcd"
        ops = [g.choice("op%d" % i, ("&&", "||")) for i in range(n)]
        negs = [g.flag("n%d" % i) for i in range(n + 1)]
        has = [g.flag("has%d" % i) for i in range(n + 1)]
        text = ""
        ors = [[]]
        for i in range(n + 1):
            if i:
                text = text + ops[i - 1]
                if ops[i - 1] == "||":
                    ors.append([])
            text = text + ("!" if negs[i] else "") + "@." + names[i]
            e = at(names[i])
            ors[-1].append(("not", e) if negs[i] else e)
        e = None
        for conj in ors:
            c = conj[0]
            for x in conj[1:]:
                c = ("and", c, x)
            e = c if e is None else ("or", e, c)
        check(g, lib, filt(e), [{names[i]: 0 for i in range(n + 1) if has[i]}], "$[?" + text + "]")

    return fn


NESTED = (
    rel(("child", [("filter", ("cmp", "==", SELF, root("a")))])),
    rel(("child", [("filter", ("cmp", "==", at("a"), root("a")))])),
    rel(("child", [("name", "a")]), ("child", [("filter", ("cmp", "==", root("a"), SELF))])),
    rel(("child", [("filter", rel(("child", [("filter", ("cmp", "==", SELF, root("a")))])))])),
    rel(("desc", [("filter", ("and", at("a"), root("a")))])),
    ("q", ("$", [("child", [("filter", ("cmp", "==", SELF, root("a")))])])),
    ("q", ("$", [("child", [("name", "b")]), ("child", [("filter", ("not", root("a")))])])),
    ("cmp", "==", ("fn", "count", [rel(("child", [("filter", ("cmp", "==", SELF, root("a")))]))]), ("lit", 1)),
    ("cmp", "==", ("fn", "value", [rel(("child", [("filter", root("a"))]))]), root("a")),
)


def nested(g, lib):
    """Filters inside filters: $ is the query argument, @ the inner candidate."""
    e = g.choice("e", NESTED)
    doc = g.json("doc", doc_spec(g, 3, 1, keys=("a",), root=("dict",), kinds=("int", "list", "dict"), ints=(0, 1)))
    doc2 = {"b": g.json("b", doc_spec(g, 2, 1, keys=("a",), root=("list", "dict"), kinds=("int", "list", "dict"), ints=(0, 1)))}
    for k in doc if isinstance(doc, dict) else ():
        doc2[k] = doc[k]
    check(g, lib, filt(e), doc2)


VALS = (SELF, at("a"), root(0), ("fn", "value", [rel(WILD)]), ("fn", "value", [rel(DESC_A)]), ("lit", "xy"), ("lit", 1))
NODES = (SELF, at("a"), rel(WILD), rel(DESC_A), rel(("desc", [("wild",)])), root(),
         rel(("child", [("name", "a"), ("name", "a")])))


def functions(g, lib):
    """length, count and value over values of every kind."""
    f = g.choice("f", ("length", "count", "value"))
    arg = g.choice("arg", VALS if f == "length" else NODES)
    call = ("fn", f, [arg])
    op = g.choice("op", ("==", "<="))
    rhs = g.choice("rhs", (("lit", 0), ("lit", 1), at("a"), at("zz")))
    e = ("cmp", op, call, rhs) if g.flag("left") else ("cmp", op, rhs, call)
    doc = [g.json("v", g.Spec(kinds=("null", "true", "int", "str", "list", "dict"), depth=2, width=2, keys=("a", "b"),
                              strs=("", "xy", "\U0001f600"), ints=(0, 2),
                              child=g.Spec(kinds=("null", "int", "dict"), depth=1, width=1, keys=("a",), ints=(0, 1))))]
    check(g, lib, filt(e), doc)


def length(g, lib):
    """length() of strings counts characters; compositions of functions."""
    e = g.choice("e", (
        ("cmp", "==", ("fn", "length", [SELF]), ("lit", 2)),
        ("cmp", "<", ("fn", "length", [SELF]), ("lit", 2)),
        ("cmp", "==", ("fn", "length", [SELF]), ("fn", "length", [root(0)])),
        ("cmp", "==", ("fn", "length", [SELF]), ("fn", "length", [at("zz")])),
        ("cmp", "==", ("fn", "length", [("fn", "value", [rel(WILD)])]), ("lit", 1)),
        ("cmp", ">=", ("fn", "count", [rel(WILD)]), ("fn", "length", [SELF])),
    ))
    doc = [g.json("v", g.Spec(kinds=ALL, depth=1, width=3, klen=1, slen=3, ints=(0, 3), dwidth=1)), "ab"]
    check(g, lib, filt(e), doc)


C = lambda c: ("ch", c)
RX = (
    C("a"), ("cat", [C("a"), C("b")]), ("alt", [C("a"), C("b")]), ("star", C("a")), ("any",),
    ("cat", [C("a"), ("any",)]), ("set", False, "ab"), ("set", True, "a"), ("plus", ("alt", [C("a"), ("cat", [C("a"), C("b")])])),
    ("cat", [("opt", C("a")), C("b")]), ("cat", [("star", ("any",)), C("b")]), ("alt", [("cat", [C("a"), C("b")]), C("a")]),
    ("cat", []), ("alt", [C("a"), ("cat", [C("a"), C("b")])]), ("alt", [C("b"), ("cat", [])]), ("alt", [("cat", [C("a"), C("b")]), C("b"), ("any",)]),
    ("esc", "."), ("cat", [C("a"), ("esc", "*")]), ("rep", C("a"), 2, 2), ("rep", ("alt", [C("a"), C("b")]), 1, 2), ("rng", "a", "c"),
)


def regex(g, lib):
    """match() is anchored, search() is not; any string, any other value."""
    f = g.choice("f", ("match", "search"))
    r = g.choice("r", RX)
    e = ("fn", f, [SELF, ("rx", r)])
    if g.flag("neg"):
        e = ("not", e)
    v = g.json("v", g.Spec(kinds=("null", "int", "str", "list", "dict"), depth=1, width=1, slen=3, klen=1, ints=(0, 0),
                           alpha=g.minus(g.ALPHABET, "\r\n")))
    check(g, lib, filt(e), [v])


def regex_args(g, lib):
    """The pattern may come from the document; anything but a string is no match."""
    f = g.choice("f", ("match", "search"))
    s = g.json("s", g.Spec(kinds=("null", "true", "int", "str", "list", "dict"), depth=1, width=1, klen=1, strs=("a", "ab", "ba", ""), ints=(0, 1)))
    p = g.json("p", g.Spec(kinds=("null", "true", "int", "str", "list", "dict"), depth=1, width=1, klen=1, strs=("a", "ab", ""), ints=(0, 1)))
    c = {}
    if not g.flag("no_s"):
        c["s"] = s
    if not g.flag("no_p"):
        c["p"] = p
    neg = g.flag("neg")
    want = False
    if "s" in c and "p" in c and isinstance(s, str) and isinstance(p, str):
        want = s == p if f == "match" else p in s
    got = lib.findall("$[?" + ("!" if neg else "") + f + "(@.s, @.p)]", [c])
    g.trace(len(got))
    g.require((len(got) == 1) == (want != neg), f + "() with a pattern from the document")


ATOMS = (at("a"), ("cmp", "==", at("a"), ("lit", 1)), ("cmp", "<", at("a"), root("a")), ("cmp", "!=", at("a"), at("b")))
PLACES = (
    lambda e: [("child", [("filter", e)])],
    lambda e: [("desc", [("filter", e)])],
    lambda e: [("child", [("filter", e), ("filter", ("not", ("paren", e)))])],
    lambda e: [("child", [("filter", e), ("name", "a")])],
    lambda e: [("child", [("wild",)]), ("child", [("filter", e)])],
    lambda e: [("child", [("filter", e)]), ("child", [("name", "a")])],
    lambda e: [("child", [("filter", e)]), ("child", [("filter", at("b"))])],
)


def places(g, lib):
    """Filters in child and descendant segments, in lists, before others."""
    e = g.choice("e", ATOMS)
    i = g.choice("place", tuple(range(len(PLACES))))
    doc = g.json("doc", doc_spec(g, 3, 2, cwidth=1, keys=("a", "b"), root=("list", "dict"), kinds=("int", "dict"), ints=(0, 1)))
    check(g, lib, ("$", PLACES[i](e)), doc)


def blanks(two):
    def fn(g, lib):
        """Every blank the grammar permits inside a filter."""
        e = g.choice("e", (
            ("and", at("a"), ("cmp", "==", at("b"), ("lit", 1))),
            ("or", ("not", ("paren", at("a"))), at("b")),
            ("cmp", "==", ("fn", "count", [rel(WILD)]), ("lit", 2)),
            ("fn", "match", [at("s"), ("rx", ("ch", "x"))]),
        ))
        doc = [{"a": 1, "b": 1}, {"b": 2}, {"a": 0}, {"s": "x"}, {}]
        check(g, lib, filt(e), doc, style=S.Style("'", g.flag("short"), blanks_at(g, 2) if two else blank1(g)))

    return fn


def texts(g, lib):
    """Strings that are JSON texts are strings, wherever a filter meets them."""
    e = g.choice("e", (
        at("a"), at(0), at("a", "a"), at("a", 0, "a"), ("q", ("@", [("child", [("wild",)])])), ("q", ("@", [("desc", [("name", "a")])])),
        ("cmp", "==", at("a"), ("lit", 1)), ("cmp", "==", SELF, root("c")), ("cmp", "==", at("a"), root("b", "a")), ("cmp", "==", root("a", "a"), ("lit", 1)),
        root(0, "a"), root(0, 0, "a"), ("cmp", "==", ("fn", "count", [("q", ("@", [("desc", [("wild",)])]))]), ("lit", 1)),
        ("cmp", "==", ("fn", "value", [("q", ("@", [("desc", [("name", "a")])]))]), ("lit", 1)), ("cmp", "<=", ("fn", "length", [SELF]), ("lit", 2)),
        ("cmp", "<", SELF, ("lit", 2)), ("cmp", "==", ("fn", "length", [at("a")]), ("fn", "length", [at("b")])),
        ("fn", "search", [SELF, ("rx", ("ch", "a"))]), ("not", ("fn", "match", [SELF, ("rx", ("ch", "a"))])), ("cmp", "==", SELF, ("lit", "1")), ("cmp", "!=", SELF, ("lit", None)),
    ))
    seg = g.choice("seg", ("child", "desc"))
    check(g, lib, ("$", [(seg, [("filter", e)])]), textual(g))


def shared(g, lib):
    """Filters over documents in which a container, or an equal one, occurs
    more than once."""
    e = g.choice("e", (
        ("cmp", "==", SELF, root(0)),
        ("cmp", "==", at("a"), root("b", "a")),
        ("cmp", "!=", at("a"), at("b")),
        ("cmp", "==", SELF, root("a")),
        ("cmp", "==", ("fn", "count", [("q", ("@", [("desc", [("wild",)])]))]), ("lit", 2)),
        ("cmp", "==", ("fn", "value", [("q", ("@", [("desc", [("name", "a")])]))]), ("lit", 1)),
        ("cmp", "==", ("fn", "length", [SELF]), ("fn", "length", [root(0)])),
    ))
    seg = g.choice("seg", ("child", "desc"))
    check(g, lib, ("$", [(seg, [("filter", e)])]), aliased(g))


def wider(g, lib):
    """Filters over long arrays and objects, against a free number."""
    t, v = digits(g, "d", 2)
    lit = ("lit", v)
    e = g.choice("e", (
        ("cmp", "<", SELF, lit),
        ("cmp", ">=", at("a"), lit),
        ("cmp", "==", at(0), lit),
        ("cmp", "!=", ("q", ("@", [("child", [("index", 1)]), ("child", [("index", 0)])])), lit),
        ("cmp", "==", ("fn", "count", [root_all()]), lit),
        ("cmp", ">", ("fn", "length", [root()]), lit),
        ("cmp", "==", root(10), lit),
    ))
    seg = g.choice("seg", ("child", "desc"))
    check(g, lib, ("$", [(seg, [("filter", e)])]), wide(g))


def huge(g, lib):
    """Comparisons and functions of values of hundreds of items or characters,
    or scores of levels, that differ at their far end or nowhere."""
    n = g.choice("n", (33, 70, 130, 300))
    kind = g.choice("kind", ("list", "dict", "str", "down-list", "down-dict"))
    e = g.choice("e", (("cmp", "==", SELF, root(0)), ("cmp", "!=", SELF, root(0)), ("cmp", "<=", SELF, root(0)),
                       ("cmp", "==", ("fn", "length", [SELF]), ("fn", "length", [root(0)])),
                       ("cmp", "==", ("fn", "count", [rel(("desc", [("wild",)]))]), ("lit", n)),
                       ("cmp", "<", ("fn", "count", [rel(("child", [("wild",)]))]), ("lit", n))))

    def one(last, more=0):
        if kind == "list":
            return list(range(n - 1)) + [last] + [0] * more
        if kind == "dict":
            return {"k%d" % i: i if i < n - 1 else last for i in range(n + more)}
        if kind == "str":
            return "s" * (n - 1) + str(last) + "s" * more
        v = last
        for i in range(min(n, 90) + more):
            v = [v] if kind == "down-list" else {"a": v}
        return v

    at = g.choice("far", (0, 1, True, "1"))
    check(g, lib, ("$", [("child", [("filter", e)])]), [one(1), one(at), one(1, 1), one(at)])


def root_all():
    return ("q", ("$", [("child", [("wild",)])]))


def taller(g, lib):
    """Filters whose queries reach far down."""
    t, v = digits(g, "d", 2)
    e = g.choice("e", (
        ("cmp", "==", ("fn", "count", [rel(("desc", [("wild",)]))]), ("lit", v)),
        ("cmp", "==", at("b"), ("lit", v)),
        ("cmp", "<=", ("fn", "count", [rel(("desc", [("name", "a")]))]), ("lit", v)),
        rel(("desc", [("filter", ("cmp", "==", at(0), ("lit", v)))])),
    ))
    check(g, lib, ("$", [(g.choice("seg", ("child", "desc")), [("filter", e)])]), tall(g, most=6))


def order(g, lib):
    """Order of longer strings, and of a string against its own prefix."""
    a = g.str("a", 0, 3)
    b = g.str("b", 0, 3)
    op = g.choice("op", ("<", "<=", ">", ">="))
    check(g, lib, filt(("cmp", op, at("a"), at("b"))), [{"a": a, "b": b}])


ALIKE = (True, 1, 1.0, "1", "true", [1], [True], {"a": 1}, {"a": True}, None, "null", "", False, 0, 0.0, -0.0, "0", [], {}, [[]], {"a": None}, [None])


def lookalikes(g, lib):
    """Values that languages confuse, all of them in one document, each against
    a literal or against one of them."""
    n = len(ALIKE)
    turn = g.choice("turn", (0, 1, 10, 13))
    vs = [ALIKE[(turn + i) % n] for i in range(n)]
    if g.flag("reversed"):
        vs = vs[::-1]
    op = g.choice("op", OPS)
    how = g.choice("how", ("literal", "member", "both", "function"))
    if how == "literal":
        lit = ("lit", g.choice("lit", (True, 1, "1", None, "", False, 0, "0", "true")))
        e = ("cmp", op, SELF, lit) if g.flag("right") else ("cmp", op, lit, SELF)
    elif how == "member":
        e = ("cmp", op, SELF, root("v", g.count("i", 0, n - 1)))
    elif how == "both":
        e = ("or", ("cmp", op, at("a"), root("v", g.count("i", 0, n - 1))), ("cmp", op, SELF, ("lit", 1)))
    else:
        e = ("cmp", op, ("fn", g.choice("f", ("length", "value")), [SELF]), ("lit", g.choice("k", (0, 1))))
        if e[2][1] == "value":
            e = ("cmp", op, ("fn", "value", [rel(WILD)]), e[3])
    check(g, lib, ("$", [("child", [("name", "v")]), ("child", [("filter", e)])]), {"v": vs})


SCENARIOS = [
    Scenario("lookalikes", lookalikes),
    Scenario("wide", wider),
    Scenario("tall", taller),
    Scenario("huge", huge),
    Scenario("texts", texts),
    Scenario("shared", shared),
    Scenario("order", order),
    Scenario("compare", compare(1, 1, ALL)),
    Scenario("compare-deep", compare(2, 2, ("true", "int", "list"), ("==",))),
    Scenario("compare-deep2", compare(2, 2, ("true", "false", "int", "list"), ("==", "!=")), tier="thorough"),
    Scenario("compare-wide", compare(2, 2, ALL), tier="thorough"),
    Scenario("literal", literal),
    Scenario("literal-literal", literal_literal),
    Scenario("number", number),
    Scenario("bignum", bignum),
    Scenario("existence", existence),
    Scenario("logic", logic(2)),
    Scenario("logic3", logic(3), tier="thorough"),
    Scenario("chain", chain(3)),
    Scenario("nested", nested),
    Scenario("functions", functions),
    Scenario("length", length),
    Scenario("regex", regex),
    Scenario("regex-args", regex_args),
    Scenario("places", places),
    Scenario("blanks", blanks(True)),
    Scenario("blanks-all", blanks(False), tier="thorough"),
]
