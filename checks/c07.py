"""C07: valid RFC 9535 queries compile; ill-typed or out-of-range ones do not."""
from checks.queries import blank1, blanks_at
from checks.util import attempt, name
from ref import grammar as G
from ref import spell as S
from se.harness import Scenario

ENTRIES = ("findall", "finditer", "match", "query")


class Trap(dict):
    """A document nobody may look at."""

    def touched(self, *a):
        raise RuntimeError("evaluated")

    __getitem__ = __iter__ = __len__ = __contains__ = keys = items = values = get = touched


def verdict(g, lib, env, text, faults, tag=""):
    kind, got = attempt(env.compile, text)
    g.trace([text, faults, kind, name(got)])
    if "free" in faults:
        if kind == "err":
            g.require(isinstance(got, lib.JSONPathError), "not a JSONPath error: " + name(got))
        return
    if faults:
        if kind == "ok":
            g.fail(tag + "accepted despite: " + faults[0])
        g.require(isinstance(got, lib.JSONPathError), tag + "rejected with " + name(got))
    elif kind == "err":
        g.fail(tag + "a valid query is rejected: " + name(got))


def judge(g, lib, text, env=None, sigs=G.SIGS, limits=None, tag=""):
    """Parse the text by the RFC; the library must agree about it."""
    r = G.parse(text)
    if r is None:
        g.trace([text, "no query"])
        return
    ast, faults = r
    faults = faults + G.typed(ast, sigs)
    env = env or lib.JSONPathEnvironment()
    lo, hi = limits or (env.min_int_index, env.max_int_index)
    if any(G.limits(ast, lo, hi)):
        faults = faults + ["out of range"]
    verdict(g, lib, env, text, faults, tag)


# -- texts ------------------------------------------------------------------

def texts(prefix, suffix, lo, hi, alpha, tag=""):
    def fn(g, lib):
        """Queries with a hole of free text."""
        t = g.str("t", lo, hi, g.ranges(*[(ord(c), ord(c)) for c in alpha]) if isinstance(alpha, str) else g.ALPHABET)
        a = prefix if isinstance(prefix, str) else g.choice("prefix", prefix)
        b = suffix if isinstance(suffix, str) else g.choice("suffix", suffix)
        judge(g, lib, a + t + b)

    return fn


BRACKET = "01-:,* '"
HEADS = ("$[", "$..[", "$.a[", "$[?@[", "$[?count($[")
# -- typing -----------------------------------------------------------------

SING = ("q", ("@", [("child", [("name", "a")])]))
SELF = ("q", ("@", []))
ROOTQ = ("q", ("$", [("child", [("index", 0)])]))
MANY = ("q", ("@", [("child", [("wild",)])]))
DESC = ("q", ("$", [("desc", [("name", "a")])]))
LIST = ("q", ("@", [("child", [("name", "a"), ("index", 0)])]))
SLICE = ("q", ("@", [("child", [("slice", None, 1, None)])]))
NESTED = ("q", ("@", [("child", [("filter", SELF)])]))
ONE = ("lit", 1)
STR = ("lit", "s")
TRUE = ("lit", True)
NULL = ("lit", None)
QUERIES = (SING, SELF, ROOTQ, MANY, DESC, LIST, SLICE, NESTED)
LITS = (ONE, STR, TRUE, NULL)
OPS = ("==", "!=", "<", "<=", ">", ">=")


def fns(args):
    """Calls of every standard function, and an unknown one, on some arguments."""
    out = []
    for f in ("length", "count", "value", "nosuch"):
        out += [("fn", f, [a]) for a in args]
    for f in ("match", "search"):
        out += [("fn", f, [a, STR]) for a in args] + [("fn", f, [SING, a]) for a in args]
    return tuple(out)


CALLS = fns((SING, MANY, STR, ("fn", "value", [MANY]), ("fn", "match", [SING, STR]), ("cmp", "==", SING, ONE), ("not", SING), ("and", SING, MANY))) + (
    ("fn", "count", []), ("fn", "length", []), ("fn", "match", [SING]), ("fn", "count", [MANY, MANY]), ("fn", "value", [SING, SING]),
    ("fn", "search", [SING, STR, STR]), ("fn", "nosuch", []), ("fn", "length", [("fn", "length", [MANY])]),
    ("fn", "count", [NESTED]), ("fn", "count", [("q", ("@", [("child", [("filter", MANY)])]))]),
    ("fn", "count", [("q", ("@", [("child", [("filter", ("cmp", "==", MANY, ONE))])]))]), ("fn", "length", [("paren", SING)]),
)
GOOD = ("fn", "match", [SING, STR])

# one logical expression in every position a test may stand
TESTS = (
    lambda e: e,
    lambda e: ("and", e, SING), lambda e: ("and", SING, e), lambda e: ("or", e, SING), lambda e: ("or", SING, e),
    lambda e: ("not", ("paren", e)), lambda e: ("paren", e), lambda e: ("and", ("paren", ("or", SING, e)), SING),
    lambda e: ("q", ("@", [("child", [("filter", e)])])), lambda e: ("not", ("paren", ("and", SING, ("not", ("paren", e))))),
    lambda e: ("cmp", "==", ("fn", "count", [("q", ("@", [("child", [("filter", e)])]))]), ONE),
    lambda e: ("or", ("or", SING, e), ("and", SING, SING)), lambda e: ("or", ("and", SING, SING), ("and", e, SING)),
    lambda e: ("and", ("cmp", "==", SING, ONE), e), lambda e: ("or", e, ("cmp", "<", SING, ONE)), lambda e: ("and", ("not", SING), e),
    lambda e: ("fn", "match", [e, STR]) if e[0] != "q" else e,
    lambda e: ("q", ("$", [("desc", [("wild",), ("filter", ("paren", e))])])),
)
NOTS = (lambda e: e, lambda e: ("not", e), lambda e: ("paren", e), lambda e: ("not", ("paren", e)), lambda e: ("paren", ("paren", e)))


def style(g):
    """Spellings: quotes, shorthands, blanks everywhere of one kind."""
    b = g.choice("blank", ("", " ", "\n", "\t", "\r"))
    return S.Style(quote=g.choice("quote", ("'", '"')), short=g.flag("short"), blank=lambda: b)


def expression(g, lib, e, sigs=G.SIGS, env=None, seg="child", st=None):
    ast = ("$", [(seg, [("filter", e)])])
    st = st or S.Style(short=True)
    verdict(g, lib, env or lib.JSONPathEnvironment(), S.query(ast, st), G.typed(ast, sigs))


def tests(atoms, nots=NOTS[:2]):
    def fn(g, lib):
        """A query, call or literal as a test anywhere in a logical expression."""
        a = g.choice("atom", atoms)
        n = g.choice("not", range(len(nots)))
        w = g.choice("where", range(len(TESTS)))
        expression(g, lib, TESTS[w](nots[n](a)))

    return fn


def operands(ops):
    def fn(g, lib):
        """Every kind of operand on either side of a comparison."""
        op = g.choice("op", ops)
        a = g.choice("a", ATOMS)
        b = g.choice("b", (SING, ONE, MANY))
        e = ("cmp", op, a, b) if g.flag("left") else ("cmp", op, b, a)
        w = g.choice("where", range(len(TESTS)))
        expression(g, lib, TESTS[w](e))

    return fn


def arguments(g, lib):
    """Every kind of argument of every function, the call standing as a test
    or operand."""
    f = g.choice("f", ("length", "count", "value", "match", "search", "nosuch"))
    n = g.count("n", 0, 3)
    args = [g.choice("a%d" % i, ARGS if i == 0 else ARGS2) for i in range(n)]
    e = ("fn", f, args)
    if g.flag("cmp"):
        e = ("cmp", "==", e, ONE) if g.flag("left") else ("cmp", "==", ONE, e)
    expression(g, lib, e)


ATOMS = QUERIES + LITS + CALLS
ARGS = QUERIES[:5] + LITS + (("fn", "value", [MANY]), GOOD, ("fn", "count", [SING, SING]), ("cmp", "<", SING, ONE), ("not", SING), ("or", SING, SING), ("paren", SING))
ARGS2 = (SING, MANY, STR, GOOD)


def custom(g, lib):
    """Functions a user registered, with every combination of types."""
    T = lib.function_extensions.ExpressionType
    F = lib.function_extensions.FilterFunction
    ty = {"V": T.VALUE, "L": T.LOGICAL, "N": T.NODES}
    a = g.choice("arg", ("V", "L", "N"))
    r = g.choice("ret", ("V", "L", "N"))

    class Fn(F):
        arg_types = [ty[a]]
        return_type = ty[r]

        def __call__(self, x):
            return x

    env = lib.JSONPathEnvironment()
    env.function_extensions["custom"] = Fn()
    sigs = dict(G.SIGS)
    sigs["custom"] = ((a,), r)
    x = g.choice("x", CARGS)
    e = ("fn", "custom", [x])
    w = g.choice("as", range(len(CUSES)))
    expression(g, lib, CUSES[w](e), sigs, env)


def third(g, lib):
    """Functions of more parameters: each argument is typed by its own."""
    T = lib.function_extensions.ExpressionType
    F = lib.function_extensions.FilterFunction
    ty = {"V": T.VALUE, "L": T.LOGICAL, "N": T.NODES}
    n = g.count("n", 3, 5)
    k = g.count("at", 0, n - 1)
    t, rest = g.choice("type", "VLN"), g.choice("rest", "VLN")
    types = [rest] * n
    types[k] = t
    types = tuple(types)

    class Fn(F):
        arg_types = [ty[x] for x in types]
        return_type = T.LOGICAL

        def __call__(self, *x):
            return False

    env = lib.JSONPathEnvironment()
    env.function_extensions["custom"] = Fn()
    sigs = dict(G.SIGS)
    sigs["custom"] = (types, "L")
    fill = {"V": ONE, "L": GOOD, "N": MANY}
    args = [fill[rest]] * n
    args[k] = g.choice("x", (SING, MANY, ONE, GOOD, ("fn", "count", [MANY]), ("cmp", "==", SING, ONE), ("not", SING), ("fn", "value", [MANY])))
    how = g.choice("how", ("full", "short", "long"))
    if how == "short":
        args = args[:-1]
    elif how == "long":
        args = args + args[:1]
    expression(g, lib, ("fn", "custom", args), sigs, env)


CARGS = ARGS + (("fn", "custom", [SING]), ("fn", "custom", [ONE]), ("and", ("fn", "match", [SING, STR]), SING), ("or", SING, ("cmp", "==", SING, ONE)),
                ("paren", ("cmp", "==", SING, ONE)), ("not", ("paren", ("cmp", "==", SING, ONE))), ("not", GOOD), ("and", SING, ("not", SING)),
                ("and", ("fn", "count", [MANY]), SING), ("or", SING, ONE))
CUSES = (lambda e: e, lambda e: ("not", e), lambda e: ("and", SING, e), lambda e: ("cmp", "==", e, ONE), lambda e: ("cmp", "<", SING, e),
         lambda e: ("fn", "match", [e, STR]), lambda e: ("cmp", "==", ("fn", "count", [e]), ONE), lambda e: ("cmp", "==", ("fn", "length", [e]), ONE))


def extended(g, lib):
    """Documented spellings of the same operators are typed alike."""
    alias = {"!=": "<>", "&&": "and", "||": "or", "!": "not"}
    a = g.choice("atom", (MANY, GOOD, SING, ONE, ("fn", "count", [MANY]), ("fn", "length", [SING])))
    b = g.choice("b", (SING, ONE))
    if g.flag("cmp"):
        e = ("cmp", "!=", a, b) if g.flag("left") else ("cmp", "!=", b, a)
    else:
        e = a
    w = g.choice("where", range(len(TESTS)))
    expression(g, lib, TESTS[w](e), st=S.Style(alias=alias))


def spelled(g, lib):
    """Valid expressions in every quote, shorthand and blank style."""
    e = TESTS[g.choice("where", range(len(TESTS)))](g.choice("atom", (SING, DESC, LIST, GOOD, ("not", SING), ("cmp", "<=", SING, STR),
                                                                     ("cmp", "==", ("fn", "length", [SING]), ONE), ("cmp", "!=", TRUE, NULL))))
    expression(g, lib, e, seg=g.choice("seg", ("child", "desc")), st=style(g))


# -- integers ---------------------------------------------------------------

PLACES = (
    "$[%s]", "$..[%s]", "$['a', %s]", "$[?@[%s]]", "$[?@[%s] == 1]", "$[?count($..[%s]) > 1]", "$[?@.a || !@[%s]]", "$.a | $[%s]", "$.a & $..[%s]",
    "$[?@[?@[%s]]]", "$[?match(@[%s], 's')]", "$[%s:]", "$[:%s]", "$[::%s]", "$[1:%s:2]", "$[0, %s:1]", "$[?@[%s:2]]", "$[?count(@[:%s]) == 0]",
    "$.a[0][%s]", "$[?@.a < @[%s]]",
)


def number(g, k):
    t = g.str("d", 1, k, g.ranges((48, 57)))
    return (g.choice("sign", ("", "-")) + t)


def bounds(g, lib):
    """Indices and slice bounds against any configured range."""
    lo, hi = g.int("lo", -30, 0), g.int("hi", 0, 30)
    t = number(g, 2)
    v = int(t)
    d = t[1:] if t[0] == "-" else t
    where = g.choice("place", PLACES)
    sl = ":" in where.split("%s")[0][-3:] or where.split("%s")[1][:1] == ":"
    zero = (len(d) > 1 or t[0] == "-") and d[0] == "0"

    class Env(lib.JSONPathEnvironment):
        max_int_index = hi
        min_int_index = lo

    env = Env()
    a, b = where.split("%s")
    text = a + t + b
    # the other integers of the place are in range as well
    g.assume(hi >= 2)
    kind, got = attempt(env.compile, text)
    g.trace([text, kind, name(got)])
    if kind == "err":
        g.require(isinstance(got, lib.JSONPathError), "rejected with " + name(got))
    if zero:
        if not sl:
            g.require(kind == "err", "an index with a leading zero is accepted")
        return
    ok = g.both(v >= lo, v <= hi)
    if kind == "ok":
        g.require(ok, "an index or bound outside the configured range is accepted")
    else:
        g.require(g.neg(ok), "an index or bound inside the configured range is rejected: " + name(got))


def default_bounds(g, lib):
    """The default range, at its ends."""
    t = g.choice("base", ("900719925474099", "90071992547409900", "-900719925474099", "18446744073709551615")) + g.str("d", 1, 1, g.ranges((48, 57)))
    v = int(t)
    a, b = g.choice("place", PLACES).split("%s")
    kind, got = attempt(lib.compile, a + t + b)
    g.trace([a + t + b, kind, name(got)])
    ok = g.both(v >= -(2 ** 53) + 1, v <= 2 ** 53 - 1)
    if kind == "ok":
        g.require(ok, "an index or bound outside the default range is accepted")
    else:
        g.require(isinstance(got, lib.JSONPathError), "rejected with " + name(got))
        g.require(g.neg(ok), "an index or bound inside the default range is rejected: " + name(got))


def unevaluated(g, lib):
    """What is rejected is never evaluated, through any entry point."""
    text = g.choice("text", (
        "$[?@.* == 1]", "$[?count(@.*)]", "$[?@.a && count(@.*)]", "$[?match(@.a, 's') == true]", "$[?length(@.*) == 1]", "$[?nosuch(@)]", "$[01]", "$[]",
        "$[1,]", "$[9007199254740992]", "$[:-9007199254740992]", "$[?true]", "$[?@.a || 1]", "$[?!'s']", "$.a | $[?count(@.a)]", "$.a[?@.b == $.c[01]]"))
    how = g.choice("how", ENTRIES)
    kind, got = attempt(getattr(lib, how), text, Trap())
    g.trace([text, how, kind, name(got)])
    if kind == "ok":
        g.fail(how + " accepts a query it must reject")
    g.require(isinstance(got, lib.JSONPathError), how + ": rejected with " + name(got))


FILTER = "@$.a*[]'1!=()& |<"



def blanked(k):
    def fn(g, lib):
        """Valid expressions with blanks at any k positions the grammar allows."""
        e = g.choice("atom", VALID)
        ast = ("$", [(g.choice("seg", ("child", "desc")), [("filter", e), ("index", 0)])])
        verdict(g, lib, lib.JSONPathEnvironment(), S.query(ast, S.Style(short=g.flag("short"), blank=blanks_at(g, k))), [])

    return fn


VALID = (SING, GOOD, ("cmp", "<=", SING, STR), ("cmp", "==", ("fn", "length", [SING]), ONE), ("and", ("not", GOOD), ("paren", ("or", SING, MANY))),
         ("q", ("@", [("desc", [("filter", ("cmp", "!=", SELF, NULL)), ("wild",)])])), ("not", ("paren", ("cmp", ">", ONE, SING))),
         ("cmp", "==", ("fn", "value", [DESC]), ("fn", "count", [SLICE])))

PAIR = (
    ("$[?count(@.*) > 1]", 1), ("$[?count(@.*)]", 0), ("$[?match(@.a, 's')]", 1), ("$[?match(@.a, 's') == true]", 0), ("$[?match(@.a)]", 0),
    ("$[?@.* == 1]", 0), ("$[?@.a == 1]", 1), ("$[?length(@.a) == 1]", 1), ("$[?length(@.*) == 1]", 0), ("$[?length(@.a)]", 0), ("$[01]", 0), ("$[1]", 1),
    ("$[1,]", 0), ("$[]", 0), ("$[?value(@.*) == 1]", 1), ("$[?true]", 0), ("$[?@.a == true]", 1), ("$[?nosuch(@.a)]", 0), ("$[9007199254740992]", 0),
    ("$[?@[?count(@.*)]]", 0), ("$[?@.a", 0), ("$[?(@.a)]", 1), ("$.a[", 0),
)


def history(g, lib):
    """A verdict does not depend on what was compiled before, even by the same
    environment or the same text."""
    seq = [g.choice("t%d" % i, PAIR) for i in range(2)] + [g.choice("t0b", ("first", "second"))]
    seq[2] = seq[0] if seq[2] == "first" else seq[1]
    env = lib.JSONPathEnvironment() if g.flag("own") else lib.JSONPathEnvironment(well_typed=True, filter_caching=False)
    for text, ok in seq:
        kind, got = attempt(env.compile, text)
        g.trace([text, kind, name(got)])
        g.require((kind == "ok") == (ok == 1), "the verdict on a query depends on earlier ones")
        if kind == "err":
            g.require(isinstance(got, lib.JSONPathError), "rejected with " + name(got))


def registry(g, lib):
    """Functions registered, replaced and removed between compilations."""
    T = lib.function_extensions.ExpressionType
    F = lib.function_extensions.FilterFunction
    ty = {"V": T.VALUE, "L": T.LOGICAL, "N": T.NODES}

    def make(a, r):
        class Fn(F):
            arg_types = [ty[x] for x in a]
            return_type = ty[r]

            def __call__(self, *x):
                return False

        return Fn()

    env = lib.JSONPathEnvironment()
    other = lib.JSONPathEnvironment()
    f = g.choice("f", ("count", "mine", "match"))
    sigs = dict(G.SIGS)
    for i in range(2):
        how = g.choice("how%d" % i, ("VV", "N", "L", "gone"))
        if how == "gone":
            if f in env.function_extensions:
                del env.function_extensions[f]
            sigs.pop(f, None)
        else:
            r = g.choice("r%d" % i, ("V", "L"))
            env.function_extensions[f] = make(how, r)
            sigs[f] = (tuple(how), r)
        e = REGUSES[g.choice("use%d" % i, range(len(REGUSES)))](f)
        expression(g, lib, e, sigs, env)
        expression(g, lib, e, G.SIGS, other)


REGUSES = (lambda f: ("fn", f, [SING]), lambda f: ("fn", f, [MANY]), lambda f: ("cmp", "==", ("fn", f, [SING]), ONE), lambda f: ("fn", f, [SING, STR]),
           lambda f: ("cmp", "<", ONE, ("fn", f, [MANY])))


SCENARIOS = [
    Scenario("brackets", texts(HEADS[:2], "]", 0, 5, BRACKET)),
    Scenario("brackets-nested", texts(("$[?@[", "$[?count($["), ("]]", "])>1]"), 0, 3, BRACKET)),
    Scenario("brackets6", texts(HEADS[:2], "]", 6, 8, BRACKET), tier="thorough"),
    Scenario("any", texts("$", "", 0, 3, None)),
    Scenario("any4", texts("$", "", 3, 5, ".[]*'\"a0\\ :,?@-\xe9")),
    Scenario("any6", texts("$", "", 6, 8, ".[]*'\"a0\\ :,?@-\xe9"), tier="thorough"),
    Scenario("name", texts(("$.", "$..", "$['", '$["'), ("", "']", '"]'), 1, 2, None)),
    Scenario("string", texts(("$['", '$["'), ("']", '"]'), 3, 6, "\\'\"u0dDfb8/a"), tier="thorough"),
    Scenario("filter", texts("$[?", "]", 1, 5, FILTER)),
    Scenario("filter-tail", texts(("$[?@", "$[?@.a=="), "]", 1, 4, FILTER)),
    Scenario("filter-call", texts(("$[?count(", "$[?length(", "$[?match("), (")]", ")==1]"), 1, 4, "@$.*[]'1!(),& ")),
    Scenario("filter6", texts("$[?", "]", 6, 7, FILTER), tier="thorough"),
    Scenario("numbers", texts("$[?@==", "]", 1, 4, "0123-+.eE")),
    Scenario("tests", tests(ATOMS, NOTS)),
    Scenario("operands", operands(OPS)),
    Scenario("history", history),
    Scenario("registry", registry),
    Scenario("arguments", arguments),
    Scenario("custom", custom),
    Scenario("third", third),
    Scenario("extended", extended),
    Scenario("spelled", spelled),
    Scenario("blanked", blanked(1)),
    Scenario("blanked2", blanked(2), tier="thorough"),
    Scenario("bounds", bounds),
    Scenario("default-bounds", default_bounds),
    Scenario("unevaluated", unevaluated),
]
