"""C19: projection returns exactly the selected values, nothing more, in place."""
from checks.queries import aliased, doc_spec, textual, segments, selector
from checks.util import attempt, name
from ref import query as Q
from ref import spell as S
from se.harness import Scenario

STYLES = ("flat", "relative", "root")


def projected(v, locs):
    """v cut down to the nodes at locs; array indices become ranks."""
    if any([len(p) == 0 for p in locs]):
        return v
    if isinstance(v, list):
        return [projected(v[i], [p[1:] for p in locs if p[0] == i]) for i in range(len(v)) if any([p[0] == i for p in locs])]
    return {k: projected(v[k], [p[1:] for p in locs if p[0] == k]) for k in v if any([p[0] == k for p in locs])}


def prefixed(doc, loc, v, locs):
    """The projection from the document's root of a match at loc."""
    out = projected(v, locs)
    for p in loc[::-1]:
        out = [out] if isinstance(p, int) else {p: out}
    return out


def expected(g, doc, query, rels, style):
    out = []
    for loc, v in Q.run(query, doc, g.eq):
        if not isinstance(v, (list, dict)):
            continue
        sel = []
        for r in rels:
            sel = sel + Q.run(r, v, g.eq)
        if len(sel) == 0:
            continue
        if style == "flat":
            out.append([x for _, x in sel])
        elif style == "relative":
            out.append(projected(v, [p for p, _ in sel]))
        else:
            out.append(prefixed(doc, loc, v, [p for p, _ in sel]))
    return out


def project(g, lib, make, query, rels, compiled=False):
    doc, ref = make(), make()
    texts = [S.query(r) for r in rels]
    if compiled:
        texts = [lib.compile(t) for t in texts]
    text = S.query(query)
    g.trace([text, [S.query(r) for r in rels]])
    out = {}
    for style in STYLES:
        p = getattr(lib.Projection, style.upper())
        kind, got = attempt(lambda: list(lib.query(text, doc).select(*texts, projection=p)))
        if kind == "err":
            g.fail("select fails: " + name(got))
        want = expected(g, doc if style == "flat" else ref, query, rels, style)
        g.require(len(got) == len(want), style + ": number of projections")
        g.trace(got)
        for a, b in zip(got, want):
            g.require(g.eq(a, b), style + ": another projection")
            if style == "flat":
                for x, y in zip(a, b):
                    g.require(g.same(x, y), "flat: not the selected value itself")
        g.require(g.eq(doc, ref), style + ": the document was modified")
        out[style] = got
    kind, again = attempt(lambda: list(lib.query(text, doc).select(*texts)))
    g.require(kind == "ok" and g.all_eq(again, out["relative"]), "the default is not relative projection")


MATCHES = (
    ("$", []),
    ("$", [("child", [("wild",)])]),
    ("$", [("desc", [("wild",)])]),
    ("$", [("child", [("name", "a")])]),
    ("$", [("child", [("slice", None, None, -1)])]),
    ("$", [("child", [("filter", ("q", ("@", [("child", [("name", "a")])])))])]),
    ("$", [("child", [("index", -1)])]),
    ("$", [("child", [("wild",)]), ("child", [("wild",)])]),
)


def N(*ns):
    return ("$", [("child", [("index", n) if isinstance(n, int) else ("name", n)]) for n in ns])


def W(*segs):
    return ("$", list(segs))


C, D = "child", "desc"
WILD = ("wild",)
RELS = (
    N("a"), N("b"), N("a", "a"), N("a", "b"), N("a", 0), N("a", 1), N(0), N(1), N(2), N(-1), N(0, "a"), N(1, 0), N(0, 0), N("a", 1, "a"),
    W((C, [WILD])), W((D, [WILD])), W((D, [("name", "a")])), W((D, [("index", 0)])), W((C, [("index", 1), ("index", 0)])),
    W((C, [("slice", None, None, -1)])), W((C, [("slice", 1, None, None)])), W((C, [("name", "b"), ("name", "a"), ("name", "b")])),
    W((C, [WILD]), (C, [("index", 1)])), W((C, [WILD]), (C, [("name", "a")])), W((C, [("filter", ("q", ("@", [("child", [("name", "a")])])))])),
    W((C, [("filter", ("cmp", "==", ("q", ("@", [])), ("q", ("$", [("child", [("index", 0)])]))))])),
    W((C, [("slice", None, None, -1)]), (C, [("slice", None, None, -2)])),
)


def pairs(matches, rels, spec, n=2, least=1):
    def fn(g, lib):
        """Lists of relative queries from a table of forms."""
        query = g.choice("m", matches)
        k = g.count("n", least, n)
        rs = [g.choice("r%d" % i, rels) for i in range(k)]
        project(g, lib, lambda: g.json("doc", spec(g)), query, rs, g.flag("compiled") if n == 1 else False)

    return fn


def programs(k, w, spec, n=1):
    def fn(g, lib):
        """Relative queries with free selectors."""
        query = g.choice("m", MATCHES[:n + 1])
        rs = []
        for i in range(n):
            segs = segments(g, "r%d_" % i, k, ("a",), w, idx=(0, -1), slices=(("slice", None, None, -1), ("slice", 1, None, None)))
            g.assume(len(segs) > 0)
            rs.append(("$", segs))
        project(g, lib, lambda: g.json("doc", spec(g)), query, rs)

    return fn


def free(spec):
    def fn(g, lib):
        """Two relative queries of free indices and slices below one array."""
        query = MATCHES[0]
        rs = []
        for i in range(2):
            if g.flag("sl%d" % i):
                s = ("slice", g.choice("a%d" % i, (None, 1)), None, g.choice("c%d" % i, (None, -1, 2)))
            else:
                s = ("index", g.choice("i%d" % i, (0, 1, -1)))
            segs = [("child", [s])]
            if g.flag("deep%d" % i):
                segs = segs + [("child", [("index", g.count("j%d" % i, -1, 0))])]
            rs.append(("$", segs))
        project(g, lib, lambda: g.json("doc", spec(g)), query, rs)

    return fn


def names(w):
    return lambda g, lib: names_(g, lib, w)


def names_(g, lib, w):
    """Any member names, those that look like integers included."""
    doc = lambda: g.json("doc", g.Spec(kinds=("dict",), depth=2, width=w, klen=1, ints=(0, 0),
                                       child=g.Spec(kinds=("int", "dict"), depth=1, width=w, klen=1, ints=(0, 0))))
    n = g.choice("n", ("0", "'", "é", ""))
    rels = [("$", [("child", [("wild",)])]), ("$", [("desc", [("wild",)])]), ("$", [("child", [("name", n)])]),
            ("$", [("child", [("index", 0), ("name", n)])]), ("$", [("child", [("wild",)]), ("child", [("name", n)])])]
    project(g, lib, doc, g.choice("m", MATCHES[:w]), [g.choice("r", rels)])


def long(n):
    """Arrays of up to thirteen elements."""
    def fn(g, lib):
        """Selections in long arrays: every rank, in selection order and by index."""
        size = g.choice("n", (1, 2, 10, 11, 13))
        nest = g.choice("nest", ("plain", "lists", "objects", "inside"))
        xs = [i if nest in ("plain", "inside") else [i, [i]] if nest == "lists" else {"a": i, "b": [i]} for i in range(size)]
        tail = {"plain": [], "inside": [], "lists": [("child", [("index", g.choice("j", (0, 1, -1)))])],
                "objects": [("child", [("name", g.choice("k", ("a", "b")))])]}[nest]
        head = [("child", [("name", "x")])] if nest == "inside" else []
        rs = []
        for i in range(g.count("rels", 1, n)):
            how = g.choice("sel%d" % i, ("index", "pair", "slice", "all"))
            if how == "index":
                s = [("index", g.choice("i%d" % i, (0, 1, 9, 10, 12)))]
            elif how == "pair":
                s = [("index", g.choice("first%d" % i, (1, 2, 9))), ("index", g.choice("last%d" % i, (2, 10, -1)))]
            elif how == "slice":
                s = [("slice", g.choice("a%d" % i, (None, 1, 9)), None, g.choice("c%d" % i, (None, 2, 5)))]
            else:
                s = [("wild",)]
            rs.append(("$", head + [("child", s)] + tail))
        project(g, lib, lambda: {"x": xs, "y": 0} if nest == "inside" else list(xs), MATCHES[0], rs)

    return fn


def nested(k):
    return lambda g, lib: nested_(g, lib, k)


def nested_(g, lib, k):
    """Relative queries that select a node and nodes inside it, in any order."""
    rs = [g.choice("r%d" % i, INNER) for i in range(k)]
    doc = g.choice("doc", (
        {"a": {"b": [1, {"a": 2}], "a": 0}, "b": [3]}, {"a": [[1, 2], {"b": 3}], "b": {"a": []}}, [{"a": {"b": {}}}, [0, [1]], {"a": [0]}],
        {"a": {"b": {"a": {"b": 1, "a": 2}, "b": 3}}},
    ))
    project(g, lib, lambda: g.copy(doc), g.choice("m", MATCHES[:2]), rs)


def falsy(g, lib):
    """Selected values that are null, false, zero or empty are values."""
    v = g.choice("v", (None, False, 0, "", [], {}, 0.0))
    rs = [g.choice("r%d" % i, (N("a"), N("b", "a"), N("l", 0), N("l", 1), W((C, [WILD])), W((D, [("name", "a")])))) for i in range(g.count("k", 1, 2))]
    project(g, lib, lambda: {"a": v, "b": {"a": v, "b": v}, "l": [v, v, 1]}, g.choice("m", MATCHES[:4]), rs)


ODD = ("", "0", "-1", "'", '"', "~", "/", " ", "\u00e9", "a.b", "#", "\\", "true", "$", "\U0001f600", "A", "a ")


def odd(g, lib):
    """Names of every kind above, at and below the match."""
    a, b, c = g.choice("a", ODD), g.choice("b", ("", "0", "~")), g.choice("c", ("", "1"))
    doc = {a: {b: {c: 1, "x": [{c: 2}, {a: 3}]}, "y": 0}, "z": [{b: [4]}]}
    n = lambda *ns: ("$", [("child", [("index", k) if isinstance(k, int) else ("name", k)]) for k in ns])
    m = g.choice("m", (n(), n(a), n(a, b), W((D, [WILD])), n(a, b, "x"), n("z")))
    rs = [g.choice("r%d" % i, (n(c), n(b), n(b, c), n("x", 0, c), n(0), W((C, [WILD])), W((D, [("name", c)])), W((D, [("name", b)])))) for i in range(1)]
    project(g, lib, lambda: g.copy(doc), m, rs)


def many(g, lib):
    """Objects and arrays of many members, selected from by several queries."""
    n = g.choice("n", (9, 17, 33, 130))
    inner = g.choice("inner", ("dict", "list", "both"))
    item = lambda i: {"x": i, "y": [i]} if inner == "dict" or inner == "both" and i % 2 else [i, [i]]
    doc = {"k%d" % i: item(i) for i in range(n)} if g.flag("dict") else [item(i) for i in range(n)]
    first, last = (N("k0"), N("k%d" % (n - 1))) if isinstance(doc, dict) else (N(0), N(-1))
    forms = (W((C, [WILD]), (C, [("name", "x")])), W((C, [WILD]), (C, [("name", "y")])), W((C, [WILD]), (C, [("index", 0)])), W((C, [WILD]), (C, [("index", 1)]), (C, [("index", 0)])),
             W((D, [("index", 0)])), first, last)
    rs = [g.choice("r%d" % i, forms) for i in range(g.count("k", 1, 2 if n < 100 else 1))]
    project(g, lib, lambda: g.copy(doc), g.choice("m", MATCHES[:2] if n < 10 else MATCHES[:1]), rs)


TWINS = ("a", "A", "'a '", "' a'", "'0'", "0", "-1", "[0:1]", "'-1'", "[-1:]", "'a','A'", "'A','a'", "'a.A'", "a.A", "*", "'*'", "'$'", "..a", "..A", "[?@ == 1]", "[?@ == '1']", "''", "' '",
         "'\u00e9'", "'e\u0301'", "'\u00df'", "'ss'", "'\u212a'", "'K'")


def twins(g, lib):
    """Two or three relative expressions that are nearly the same text."""
    doc = {"a": 1, "A": {"a": "1", "A": [2]}, "a ": 3, " a": 4, "0": 5, "-1": 6, "a.A": 7, "*": 8, "$": 9, "": 10, " ": 11, "\u00e9": 12, "e\u0301": 13, "\u00df": 14, "ss": 15, "\u212a": 16, "K": 17, "[0:1]": 18}
    if g.flag("nested"):
        doc = {"x": {"a": {"A": 0, "a": 19}, "A": 1}, "l": [1, {"a": "1", "A": 1}, "1"], "y": doc}
    i = g.count("i", 0, len(TWINS) - 2)
    step = g.choice("step", (1, 2, 3))
    exprs = [TWINS[i], TWINS[(i + step) % len(TWINS)]]
    if g.flag("swap"):
        exprs = exprs[::-1]
    if g.flag("again"):
        exprs = exprs + exprs[:1]
    texts = [shape(t) for t in exprs]
    kinds = g.choice("how", ("text", "mixed"))
    args = [lib.compile(t) if kinds == "mixed" and n % 2 else t for n, t in enumerate(texts)]
    query = g.choice("m", MATCHES[:2])
    for style in STYLES:
        p = getattr(lib.Projection, style.upper())
        kind, got = attempt(lambda: list(lib.query(S.query(query), doc).select(*args, projection=p)))
        if kind == "err":
            g.fail("select fails: " + name(got))
        g.trace([texts, got])
        g.pristine()
        want = []
        for loc, v in Q.run(query, doc, g.eq):
            if not isinstance(v, (list, dict)):
                continue
            sel = []
            for t in texts:
                sel = sel + [(list(m.parts), m.obj) for m in lib.JSONPathEnvironment().finditer(t, v)]
            if len(sel) == 0:
                continue
            if style == "flat":
                want.append([x for _, x in sel])
            elif style == "relative":
                want.append(projected(v, [p for p, _ in sel]))
            else:
                want.append(prefixed(doc, loc, v, [p for p, _ in sel]))
        g.require(len(got) == len(want), style + " of similar expressions: number of projections")
        for x, y in zip(got, want):
            g.require(g.eq(x, y), style + " of similar expressions: another projection")


def shape(t):
    if t[0] in ".$":
        return t if t[0] == "$" else "$" + t
    return "$" + (t if t[0] == "[" else "[" + t + "]" if t[0] in "'-0*" else "." + t)


def texts(g, lib):
    """A string that is a JSON text is not a container."""
    rs = [g.choice("r%d" % i, (N("a"), N(0), N("a", "a"), W((C, [WILD])), W((D, [("name", "a")])), W((C, [("slice", None, None, None)])))) for i in range(1)]
    doc = textual(g)
    project(g, lib, lambda: g.copy(doc), g.choice("m", MATCHES[:3]), rs)


def shared(g, lib):
    """Documents in which a container, or an equal one, occurs more than once."""
    rs = [g.choice("r%d" % i, (W((C, [WILD])), N("a"), N("a", "a"), N(0), N(2, 0), W((D, [("name", "a")])))) for i in range(2)]
    doc = aliased(g)
    project(g, lib, lambda: g.copy(doc), g.choice("m", MATCHES[:2]), rs)


INNER = (N("a"), N("a", "b"), N("a", "b", "a"), N("a", "a"), N("a", 0), N("a", 1, "b"), N(0), N(0, "a"), N(1, 1), N("b"), N("b", "a"), W((D, [("name", "b")])), W((C, [WILD])))


def compound(spec):
    def fn(g, lib):
        """Compound relative queries and compound match queries."""
        a = g.choice("a", RELS[::4])
        b = g.choice("b", RELS[::4])
        op = g.choice("op", "|&")
        m = g.choice("m", MATCHES[:2])
        style = g.choice("style", STYLES)
        make = lambda: g.json("doc", spec(g))
        doc, ref = make(), make()
        p = getattr(lib.Projection, style.upper())
        kind, got = attempt(lambda: list(lib.query(S.query(m), doc).select(S.query(a) + " " + op + " " + S.query(b), projection=p)))
        if kind == "err":
            g.fail("select with a compound query fails: " + name(got))
        want = []
        for loc, v in Q.run(m, ref, g.eq):
            if not isinstance(v, (list, dict)):
                continue
            left, right = Q.run(a, v, g.eq), Q.run(b, v, g.eq)
            if op == "|":
                sel = left + right
            else:
                sel = [(l, x) for l, x in left if any([g.eq(x, y) for _, y in right])]
            if len(sel) == 0:
                continue
            if style == "flat":
                want.append([x for _, x in sel])
            elif style == "relative":
                want.append(projected(v, [l for l, _ in sel]))
            else:
                want.append(prefixed(ref, loc, v, [l for l, _ in sel]))
        g.trace([S.query(m), S.query(a), op, S.query(b), style, got])
        g.require(len(got) == len(want), style + " of a compound: number of projections")
        for x, y in zip(got, want):
            g.require(g.eq(x, y), style + " of a compound: another projection")
        g.require(g.eq(doc, make()), "the document was modified")

    return fn


S2 = lambda g: doc_spec(g, 2, 2, keys=("a", "b"), kinds=("int", "str", "list", "dict"), ints=(0, 1), strs=("s",), cwidth=1,
                        root=("list", "dict", "int"))
S3 = lambda g: doc_spec(g, 3, 3, keys=("a", "b"), kinds=("null", "false", "int", "str", "list", "dict"), ints=(0, 1), strs=("", "s"), cwidth=2,
                        root=("list", "dict", "null"))
SA = lambda g: g.Spec(kinds=("list",), depth=2, width=3, ints=(0, 1), child=g.Spec(kinds=("list",), depth=1, width=2, ints=(0, 1), child=g.Spec(kinds=("int",), ints=(0, 1))))
SE = lambda g: doc_spec(g, 2, 2, keys=("a", "b"), kinds=("int", "list", "dict", "null", "false"), ints=(0, 0), cwidth=1, root=("list", "dict"))

SE = lambda g: doc_spec(g, 2, 2, keys=("a", "b"), kinds=("int", "list", "dict"), ints=(0, 0), cwidth=1, root=("list", "dict"))
SK = lambda g: doc_spec(g, 2, 2, keys=("a",), kinds=("int", "list", "dict"), ints=(0, 0), cwidth=1, root=("list", "dict"))
SF = lambda g: g.Spec(kinds=("list",), depth=2, width=3, minwidth=1,
                      child=g.Spec(kinds=("list", "null"), depth=1, width=1, child=g.Spec(kinds=("int",), ints=(0, 0))))

TWO = tuple(r for r in RELS if r not in (N("b"), N("a", "b"), N("a", 1), N(2), N(1, 0), N("a", 1, "a"), N(0, "a")))[:9] + (RELS[19],)

SCENARIOS = [
    Scenario("one", pairs(MATCHES[:3], RELS, SK, 1)),
    Scenario("one-object", pairs(MATCHES, RELS, SE, 1), tier="thorough"),
    Scenario("one-scalars", pairs(MATCHES, RELS, S2, 1), tier="thorough"),
    Scenario("two", pairs(MATCHES[:1], TWO, SE, 2, 2)),
    Scenario("two-deep", pairs(MATCHES[:3], RELS, S2, 2, 2), tier="thorough"),
    Scenario("three", pairs(MATCHES, RELS, S3, 3), tier="thorough"),
    Scenario("programs", programs(1, 2, SK)),
    Scenario("programs2", programs(2, 2, S3, 2), tier="thorough"),
    Scenario("free", free(SF)),
    Scenario("names", names(1)),
    Scenario("names2", names(2), tier="thorough"),
    Scenario("long", long(1)),
    Scenario("long2", long(2), tier="thorough"),
    Scenario("nested", nested(2)),
    Scenario("nested3", nested(3), tier="thorough"),
    Scenario("falsy", falsy),
    Scenario("texts", texts),
    Scenario("odd", odd),
    Scenario("many", many),
    Scenario("twins", twins),
    Scenario("shared", shared),
    Scenario("compound", compound(SK)),
    Scenario("compound2", compound(S2), tier="thorough"),
]
