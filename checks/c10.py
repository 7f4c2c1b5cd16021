"""C10: the string form of a compiled query recompiles to an equivalent query."""
from checks.queries import blanks_at, digits, doc_spec, segments
from checks.util import attempt, name
from ref import query as Q
from ref import spell as S
from se.harness import Scenario

SELF = ("q", ("@", []))
KEY = ("key",)
UNDEF = ("undef",)
WILD = ("child", [("wild",)])


def path(root, *names):
    return ("q", (root, [("child", [("name", n) if isinstance(n, str) else ("index", n)]) for n in names]))


def at(*names):
    return path("@", *names)


def rel(*segs):
    return ("q", ("@", list(segs)))


def filt(e, seg="child"):
    return ("$", [(seg, [("filter", e)])])


def trip(g, lib, text, docs, ctx=None, env=None, valid=True):
    """compile, print, recompile, print again; evaluate both."""
    env = env or lib.JSONPathEnvironment()
    kind, q1 = attempt(env.compile, text)
    if kind == "err":
        g.trace([text, "rejected"])
        if valid:
            g.require(isinstance(q1, lib.JSONPathError), "compile: " + name(q1))
        return
    kind, s1 = attempt(g.text, q1)
    if kind == "err":
        g.fail("str() fails: " + name(s1))
    kind, q2 = attempt(env.compile, s1)
    g.trace([text, s1, kind])
    if kind == "err":
        g.fail("the string form is rejected: " + name(q2))
    g.require(g.text(q2) == s1, "the string form is no fixed point")
    for doc in docs:
        same(g, q1, q2, doc, {} if ctx is None else {"filter_context": ctx})


def run(q, doc, kw):
    return list(q.finditer(doc, **kw))


def same(g, q1, q2, doc, kw):
    k1, r1 = attempt(run, q1, doc, kw)
    k2, r2 = attempt(run, q2, doc, kw)
    g.require(k1 == k2, "only one of the two fails")
    if k1 == "err":
        g.require(name(r1) == name(r2), "another error")
        return
    g.require(len(r1) == len(r2), "another number of matches")
    for a, b in zip(r1, r2):
        g.require(len(a.parts) == len(b.parts), "another match")
        g.require(all([g.same(x, y) for x, y in zip(a.parts, b.parts)]), "another match")
        g.require(g.same(a.obj, b.obj) if len(a.parts) or not isinstance(a.obj, list) else g.eq(a.obj, b.obj), "another value")


# -- strings -------------------------------------------------------------------

PLACES = (
    ("$[%s]", "name"), ("$[%s, 'z']", "name"), ("$..[%s]", "name"), ("$[?@ == %s]", "value"), ("$[?%s != @]", "value"), ("$[?@[%s]]", "member"),
    ("$[?@ in [%s, 'z']]", "value"), ("$[?length(%s) == @]", "number"), ("$[?@ == 'a' || !(@ < %s)]", "value"), ("$[?# == %s]", "name"),
    ("$[?contains_(@, %s)]", "value"),
)


def strings(n, places=PLACES[:10]):
    def fn(g, lib):
        """String literals and names, any text between either quotes."""
        t = g.str("t", 0, n)
        qt = g.choice("quote", ("'", '"'))
        form, kind = g.choice("place", places)
        v = g.str("v", 0, n)
        w = g.choice("w", (1, 2)) if kind == "name" else None
        doc = {"name": {v: [w], "z": {v: 0}} if kind == "name" else None, "value": [v, 1], "member": [{v: 1}, v], "number": [0, 1, 2]}[kind]
        trip(g, lib, form.replace("%s", qt + t + qt), [doc])

    return fn


def escapes(g, lib):
    """Escape sequences in string literals and names."""
    e = g.choice("e", ("\\n", "\\\\", "\\'", '\\"', "\\/", "\\u0000", "\\u0041", "\\u00e9", "\\u2028", "\\ud83d\\ude00", "\\t", "\\b", "\\f", "\\r", "\\u001f", "\\u0027", "\\u0022", "\\u005c", "\\u005C\\u0027", "\\\\\\'", "\\ud83d"))
    c = g.str("c", 0, 1)
    qt = g.choice("quote", ("'", '"'))
    t = e + c if g.flag("after") else c + e
    form, kind = g.choice("place", PLACES[:4])
    v = S.unquote(t, qt)
    if v is None:
        v = "x"
    doc = {v: [1], "z": {v: 0}} if kind == "name" else [v, "x"]
    trip(g, lib, form.replace("%s", qt + t + qt), [doc])


# -- numbers -------------------------------------------------------------------

def numbers(nd):
    def fn(g, lib):
        """Number literals: fractions, exponents, signs, zeros."""
        t = g.choice("sign", ("", "-")) + g.str("int", 1, nd, g.ranges((48, 57)))
        if g.flag("frac"):
            t = t + "." + g.choice("fr", ("0", "5", "", "50"))
        if g.flag("exp"):
            t = t + g.choice("e", ("e+", "E", "e-")) + g.choice("ed", ("0", "01", "2"))
        v = g.int("v", -20, 99)
        trip(g, lib, "$[?@" + g.choice("op", ("==", "<")) + t + "]", [[v, 0.5, 2.5, 5.0, -0.5, 0.01, 100.0, -0.0, 50, 900]])

    return fn


BIG = ("1e400", "-1e400", "1.0e400", "1e22", "1.5e22", "1e16", "1e-7", "1.5e-7", "123456789012345678901234567890", "9007199254740993", "-0", "-0.0", "0.1",
       "100000000000000000000.0", "1e309", "1" * 320, "12345678.9", "0.30000000000000004", "1e308", "1.7976931348623157e308", "5e-324", "1E5", "1.0", "1.", "00", "007",
       "-1", "1e0", "1.e3", "2.5E-1", "1e+2", "-1.5e+2", "1e-400")


def big(g, lib):
    """Numbers of extreme size and unusual spelling."""
    t = g.choice("t", BIG)
    form = g.choice("form", ("$[?@ == %s]", "$[?@ < %s]", "$[?%s <= @]", "$[?@ in [%s]]", "$[?@ != %s && @ > 0]"))
    try:
        v = float(t)
    except OverflowError:
        v = 1e400
    docs = [[v, -v, 0, 1, 1e308, v + 1 if v < 1e300 else 1, -1e308, 1e16, "x", None]]
    if t.isdigit():
        docs[0] += [int(t), int(t) + 1]
    trip(g, lib, form.replace("%s", t), docs)


# -- selectors -----------------------------------------------------------------

FILTERS = (at("a"), ("not", at("a")), ("cmp", "==", SELF, ("lit", 1)), ("and", at("a"), ("cmp", "<", at("a"), ("lit", 2))))
SLICES = (("slice", None, None, None), ("slice", 1, None, None), ("slice", None, -1, None), ("slice", None, None, -1), ("slice", 0, 2, 2), ("slice", None, None, 0), ("slice", -1, None, -1), ("slice", 0, 0, 1))


RICH = (
    {"a": {"a": [1, {"a": 2}], "b": 1, "'": 0}, "b": [[{"a": 1}], {"b": 1}, 1], "'": {"'": 1}, "c": 1},
    [{"a": 1}, [1, [2, 1], 1], 1, {"a": {"b": 2}, "b": [1, 2, 3]}],
)


def selectors(k, w, spec, slices=SLICES[:4], names=("a", "b", "'"), kinds=("name", "index", "slice", "wild", "keys", "filter")):
    def fn(g, lib):
        """Segments and selectors of every kind."""
        segs = segments(g, "s", k, names, w, kinds=kinds, idx=(0, -1), slices=slices, filters=FILTERS[:2] if k * w > 1 else FILTERS)
        text = S.query((g.choice("root", ("$", "^")), segs), S.Style(quote=g.choice("quote", ("'", '"')), short=g.flag("short")))
        trip(g, lib, text, [g.json("doc", spec(g))] if spec else RICH)

    return fn


def bounds(g, lib):
    """Slices and indices with free numbers, anywhere in a query."""
    parts = []
    for nm in ("start", "end", "step"):
        parts.append(digits(g, nm, 1)[0] if g.flag("has_" + nm) else "")
    text = parts[0] + ":" + parts[1] + (":" + parts[2] if parts[2] or g.flag("colon") else "")
    form = g.choice("form", ("$[%s]", "$[0, %s]", "$..[%s]", "$[?count(@[%s]) > 1]", "$[%s][0]", "$ | $[%s]", "%s"))
    trip(g, lib, form.replace("%s", text), [[0, 1, [2, 3, 4], {"a": [5, 6]}, [7, 8]]], valid=form != "%s")


def indices(g, lib):
    """Free two-digit indices, anywhere in a query."""
    t, _ = digits(g, "i", 2)
    form = g.choice("form", ("$[%s]", "$['a', %s]", "$..[%s]", "$[?@[%s] == 1]", "$.*[%s].a", "$ & $[%s]", "[%s]", "$[?@.a[?@[%s]]]", "^[%s]", "$[?_[%s]]"))
    trip(g, lib, form.replace("%s", t), [list(range(12)) + [[1] * 12], {"10": 1, "-10": 2, "a": [1] * 11}], valid=False)


def quotes(n):
    def fn(g, lib):
        """Longer strings of quotes and backslashes."""
        qt = g.choice("quote", ("'", '"'))
        t = g.str("t", 2, n, g.ranges((34, 34), (39, 39), (92, 92), (110, 110)))
        v = S.unquote(t, qt)
        form, kind = g.choice("place", PLACES[:7:2])
        doc = {v or "": [1], "z": {t: 0}} if kind == "name" else [v, "x", t]
        trip(g, lib, form.replace("%s", qt + t + qt), [doc], valid=v is not None)

    return fn


def nested_selectors(k, w, spec):
    def fn(g, lib):
        """Segments and selectors of queries within filters."""
        segs = segments(g, "s", k, ("a", "'"), w, kinds=("name", "index", "slice", "wild", "keys", "filter"), idx=(0, -1), slices=SLICES[1:5], filters=FILTERS[:2])
        q = ("q", (g.choice("root", ("@", "$", "^", "_")), segs))
        e = g.choice("e", (lambda: q, lambda: ("not", q), lambda: ("cmp", "==", ("fn", "count", [q]), ("lit", 1)), lambda: ("cmp", "==", q, ("lit", 1))))()
        text = S.query(filt(e), S.Style(short=g.flag("short")))
        trip(g, lib, text, [g.json("doc", spec(g))] if spec else RICH, {"a": [1], "b": 1})

    return fn


def bare(n):
    def fn(g, lib):
        """Bare names, leading dots, texts without a root."""
        t = g.str("t", 1, n, g.minus(g.ALPHABET, "\\"))
        form = g.choice("form", ("%s", ".%s", "$[%s]", "$.%s", "..%s", "$.%s.a", "$[?@.%s]", "$[?%s]", "$%s", "$[?@%s]", "$[?@ == %s]"))
        doc = {"a": {"a": 1}, t: [{t: 0}, 5], "b": {t: {"a": 2}}}
        trip(g, lib, form.replace("%s", t), [doc])

    return fn


# -- logical expressions -------------------------------------------------------

LEAVES = (at("a"), ("cmp", "==", at("b"), ("lit", 1)), ("cmp", "in", at("c"), ("list", [1, "x"])))
CDOCS = tuple([dict(x, **y) for y in [dict(y, **z) for z in ({}, {"c": "x"}, {"c": 2}) for y in ({}, {"b": 1}, {"b": 2})] for x in ({}, {"a": 0})])


def tree(g, nm, d, leaves):
    k = g.choice(nm + "k", ("leaf", "and", "or", "not", "paren") if d else ("leaf",))
    if k == "leaf":
        return g.choice(nm, leaves)
    if k == "not":
        a = tree(g, nm + "n", d - 1, leaves)
        return ("not", a if a[0] in ("q", "paren", "fn", "not") else ("paren", a))
    if k == "paren":
        return ("paren", tree(g, nm + "p", d - 1, leaves))
    return (k, tree(g, nm + "l", d - 1, leaves), tree(g, nm + "r", d - 1, leaves))


def logic(d, leaves):
    def fn(g, lib):
        """Grouping and negation scope of ! && || and comparisons."""
        e = tree(g, "e", d, leaves)
        trip(g, lib, S.query(filt(e), S.Style(short=True)), [list(CDOCS)])

    return fn


WORDS = ({"&&": "and", "||": "or", "!": "not", "!=": "<>"},)


def word_logic(g, lib):
    """The same with word operators, blanks and aliases."""
    e = tree(g, "e", 2, LEAVES[:2])
    trip(g, lib, S.query(filt(e), S.Style(short=True, alias=WORDS[0])), [list(CDOCS)])


def chain(n):
    def fn(g, lib):
        """Unparenthesised chains of every operator."""
        text = ""
        for i in range(n + 1):
            if i:
                text = text + g.choice("o%d" % i, (" && ", " || ", " == ", " < ", " in ", " contains ", " <> ") if i < 3 else (" && ", " || ", " == "))
            text = text + g.choice("p%d" % i, ("", "!")) + g.choice("t%d" % i, ("@.a", "1", "count(@.*)") if i < 3 else ("@.a", "1"))
        trip(g, lib, "$[?" + text + "]", DOCS, valid=False)

    return fn


DOCS = ([{"a": 1}, {"a": 0}, {}, {"a": True}, {"a": False}, [1], [0], 1, True, {"a": 1, "b": 2}, {"a": [1]}, {"a": "1"}],)
TOKENS = ("@.a", "==", "(", ")", "!", "&&", "||", "1", "in", "[1]", "true", ",", "count(", "/a/", "=~", "length(", "@.*", "'a'", "<", "#", "undefined", "$", "_.x", "^[0]")


def soup(n, tokens):
    def fn(g, lib):
        """Sequences of tokens, accepted or not."""
        text = ""
        for i in range(n):
            text = text + " " + g.choice("t%d" % i, tokens)
        trip(g, lib, "$[?" + text + "]", DOCS, {"x": 1}, valid=False)

    return fn


def infix(g, lib):
    """Comparisons of comparisons, memberships in either order, nested groups."""
    ops = ("==", "<", "in", "contains", "&&", "||", "=~")
    a, b = g.choice("op1", ops), g.choice("op2", ops)
    x = "/x/" if a == "=~" else "@.b"
    form = g.choice("form", ("@.a %s (@.b %t @.c)", "(@.a %s @.b) %t @.c", "@.a %s @.b %t @.c", "!(@.a %s @.b) %t @.c", "@.a %s !(@.b %t @.c)", "!@.a %s @.b %t @.c",
                             "!(@.a %s @.b %t @.c)", "@.a %s !@.b %t @.c", "@.a && (@.b %s @.c) %t @.d", "(@.a %s @.b) && !(@.c %t @.d)", "!!(@.a %s @.b) && (@.b %t @.c)",
                             "@.a %s (@.b) && ((@.c) %t @.d)", "(@.a %s (@.b %t @.c))"))
    text = form.replace("%s", a).replace("%t", b)
    doc = [{}]
    for k in "abcd":
        doc = doc + [dict(c, **{k: v}) for c in doc for v in ((1, "x", False, True, ["x"]) if k in "ab" else (True, "x"))]
    trip(g, lib, "$[?" + text + "]", [doc], valid=False)


# -- literals, identifiers, functions ------------------------------------------

LITS = ("null", "Null", "nil", "Nil", "none", "None", "true", "True", "false", "False", "'True'", '"nil"', "1", "1.5", "-1", "undefined", "missing", "[1, 'a', null, true, 2.5]",
        "[]", "['a']", '["\'"]', "[None, True]", "['\\\\']", "/a/", "/A/i", "/a./s", "/^a$/ims", "/\\//", "/a\\/b/", "/[/]/", "/\\\\/", "/'/", "/\\u0061/", "/ /", "/é/a", "#", "_", "_.x", "_['y']", "$", "$.x", "^", "^[0]", "@.a",
        "/\\d/a", "/a|b/", "/(/", "/\\n/")


def literals(g, lib):
    """Every literal and identifier on either side of the operators."""
    t = g.choice("t", LITS)
    form = g.choice("form", ("$[?@ == %s]", "$[?%s == @]", "$[?@ =~ %s]", "$[?@ in %s]", "$[?%s contains @]", "$[?@ != %s && @ < %s]", "$[?!(@ <> %s)]", "$[?%s]", "$[?!%s]", "$[?length(%s) == 1]",
                             "$[?count(%s) == 1]", "$[?match(@, %s)]", "$[?isinstance(%s, 'string')]", "$[?typeof(%s) == 'array']", "$[?@.b[?@ == %s]]"))
    v = g.json("v", g.Spec(kinds=("null", "true", "false", "int", "float", "str", "list"), depth=1, width=1, strs=("a", "A", "True", "/", "a/b", "nil", "'", "\\", ""), ints=(0, 1), floats=(6, 6),
                           child=g.Spec(kinds=("int", "str"), ints=(1, 1), strs=("a",))))
    trip(g, lib, form.replace("%s", t), [[v]], {"x": 1, "y": "a"}, valid=False)


RXC = "\\/[]()'\"., "


def regexes(n):
    def fn(g, lib):
        """Regular expression texts and flags."""
        body = ""
        for i in range(g.count("n", 1, n)):
            body = body + g.choice("c%d" % i, ("a", "\\/", "\\\\", "\\.", ".", "[/]", "'", '"', "(b)", "\\u0061", " ", "é", "\\x41", "|"))
        flags = g.choice("flags", ("", "i", "s", "m", "a", "is", "aims"))
        v = g.str("v", 0, n, g.ranges((97, 98), (65, 65), (47, 47), (92, 92), (46, 46), (10, 10)))
        trip(g, lib, "$[?@ =~ /" + body + "/" + flags + "]", [[v]], valid=False)

    return fn


OPERANDS = ("$.a", "^[0]", "$..*", "a", "^.*", "$[?@ == 1]", "$[?@.a || @ == 1]", "$.a.b", "^", "$", "^[?@.a]", "$['|']", "$[?@ == '&']")


def compound(n, operands, spec):
    def fn(g, lib):
        """Unions and intersections; the fake root anywhere in them."""
        k = g.count("n", 1, n)
        text = g.choice("q0", operands)
        for i in range(k):
            text = text + g.choice("o%d" % i, (" | ", " & ", "|")) + g.choice("q%d" % (i + 1), operands)
        trip(g, lib, text, [g.json("doc", spec(g))] if spec else RICH, valid=False)

    return fn


CALLS = (
    "count(@.*)", "count($..a)", "length(@.a)", "length('ab')", "value(@..a)", "match(@.a, 'a.')", "search(@.a, \"[\\\"']\")", "isinstance(@.a, 'int')", "is(@.a, 'string')", "typeof(@.a)",
    "type(@)", "length(value(@..a))", "count(@[?@ == 1])", "count(@[?count(@.*) > 1 && @.a])", "length(#)", "match(#, 'a')", "count(_.*)", "count(^.*)", "value(^[0].a)", "match('a', 'a')", "length([1, 2])",
    "search(@.a, @.b)", "count(@['a', \"b\"])", "length(null)", "length(1.0)", "typeof(@.~)", "custom(@.a)", "custom(@.a == 1)", "custom(!@.a)", "custom((@.a))", "custom(@.a && @.b || @.c)",
    "custom((@.a || @.b) && @.c)", "custom(!(@.a == 1))", "custom(match(@.a, 'a'))", "custom((match(@.a, 'a')))", "custom(!match(@.a, 'a') && @.b)", "custom(@.a in ['a', 1])",
    "legacy(@.a, 1)", "legacy(@.*, 'x')", "legacy(true, null)",
)
CUSES = ("$[?%s]", "$[?!%s]", "$[?%s == 1]", "$[?'number' == %s]", "$[?%s && @.a]", "$[?(%s || @.b) && @.a]", "$[?!(%s != 2)]", "$[?%s in [1, 2]]", "$[?@[?%s]]")


def functions(g, lib):
    """Calls with every kind of argument, logical arguments included."""
    T = lib.function_extensions.ExpressionType

    class Fn(lib.function_extensions.FilterFunction):
        arg_types = [T.LOGICAL]
        return_type = T.LOGICAL

        def __call__(self, x):
            return x

    def legacy(x, y):
        return x == y or y is None

    env = lib.JSONPathEnvironment()
    env.function_extensions["custom"] = Fn()
    env.function_extensions["legacy"] = legacy
    text = g.choice("use", CUSES).replace("%s", g.choice("call", CALLS))
    v = g.json("v", g.Spec(kinds=("dict", "list"), depth=1, width=2, keys=("a", "b"), child=g.Spec(kinds=("int", "str"), ints=(1, 2), strs=("a",))))
    trip(g, lib, text, [[v], {"a": v}], {"a": [1, 2]}, env, valid=False)


def blanks(g, lib):
    """Blanks leave no trace."""
    e = g.choice("e", (
        ("and", at("a"), ("cmp", "==", at("b"), ("lit", 1))), ("or", ("not", ("paren", at("a"))), at("b")), ("cmp", "==", ("fn", "count", [rel(WILD)]), ("lit", 2)),
        ("cmp", "in", at("a"), ("list", [1, 2])), ("not", ("paren", ("cmp", "==", KEY, ("lit", "a")))),
    ))
    trip(g, lib, S.query(filt(e), S.Style("'", g.flag("short"), blanks_at(g, 1))), [[{"a": 1, "b": 1}, {"b": 2}, {"a": 0}, {}]])


S1 = lambda g: doc_spec(g, 2, 2, keys=("a", "'"), kinds=("int", "list", "dict"), ints=(0, 1), cwidth=1, root=("list", "dict"))
S0 = lambda g: doc_spec(g, 2, 1, keys=("a",), kinds=("int", "list", "dict"), ints=(0, 1), root=("list", "dict"))
S3 = lambda g: doc_spec(g, 3, 2, keys=("a", "b"), kinds=("null", "int", "str", "list", "dict"), ints=(0, 1), strs=("a",), root=("list", "dict", "int"))

SCENARIOS = [
    Scenario("strings", strings(1)),
    Scenario("strings3", strings(3), tier="thorough"),
    Scenario("escapes", escapes),
    Scenario("numbers", numbers(1)),
    Scenario("numbers2", numbers(2), tier="thorough"),
    Scenario("big", big),
    Scenario("selectors", selectors(1, 1, S0, SLICES[:4])),
    Scenario("selectors2", selectors(2, 1, None, SLICES[:4])),
    Scenario("selectors3", selectors(2, 2, S3), tier="thorough"),
    Scenario("lists", selectors(1, 2, None, SLICES[1:4])),
    Scenario("lists2", selectors(1, 2, S1, SLICES[1:4]), tier="thorough"),
    Scenario("slices", selectors(1, 1, lambda g: doc_spec(g, 1, 3, kinds=("int",), ints=(0, 1), root=("list",)), SLICES, kinds=("slice",))),
    Scenario("slices2", selectors(1, 1, S1, SLICES, kinds=("slice",)), tier="thorough"),
    Scenario("bounds", bounds),
    Scenario("indices", indices),
    Scenario("quotes", quotes(4)),
    Scenario("quotes6", quotes(6), tier="thorough"),
    Scenario("nested", nested_selectors(1, 1, S0)),
    Scenario("nested2", nested_selectors(2, 1, None)),
    Scenario("nested3", nested_selectors(2, 1, S3), tier="thorough"),
    Scenario("bare", bare(1)),
    Scenario("bare3", bare(3), tier="thorough"),
    Scenario("logic", logic(2, LEAVES)),
    Scenario("logic3", logic(3, LEAVES[:2]), tier="thorough"),
    Scenario("word-logic", word_logic),
    Scenario("chain", chain(2)),
    Scenario("chain3", chain(3), tier="thorough"),
    Scenario("soup", soup(3, TOKENS[:18])),
    Scenario("soup5", soup(5, TOKENS[:13]), tier="thorough"),
    Scenario("soup4", soup(4, TOKENS), tier="thorough"),
    Scenario("infix", infix),
    Scenario("literals", literals),
    Scenario("regexes", regexes(1)),
    Scenario("regexes3", regexes(3), tier="thorough"),
    Scenario("compound", compound(1, OPERANDS, S0)),
    Scenario("compound2", compound(2, OPERANDS[:8], None)),
    Scenario("compound3", compound(3, OPERANDS, S1), tier="thorough"),
    Scenario("functions", functions),
    Scenario("blanks", blanks),
]
