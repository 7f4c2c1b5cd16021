"""C01: segments and selectors yield the nodelist of RFC 9535 2.3 and 2.5."""
from checks.queries import aliased, textual, blank1, blanks_at, deep, digits, doc_spec, same_nodes, segments, tall, vast, wide
from checks.util import attempt, name
from ref import query as Q
from ref import spell as S
from se.harness import Scenario


def check(g, lib, text, query, doc):
    want = Q.run(query, doc, g.eq)
    kind, got = attempt(lib.findall, text, doc)
    g.trace([text, kind, len(want)])
    if kind == "err":
        g.fail("a valid query fails: " + name(got))
    same_nodes(g, got, want, "findall")


def via(g, lib, text, query, doc):
    want = Q.run(query, doc, g.eq)
    p = lib.compile(text)
    got = p.findall(doc)
    g.trace([text, len(want)])
    same_nodes(g, got, want, "compile().findall")
    same_nodes(g, [m.obj for m in lib.finditer(text, doc)], want, "finditer")


def quoted(n, where):
    def fn(g, lib):
        """A quoted name selector of at most n characters (escapes, quotes,
        backslashes, any character) against an object with free names."""
        quote = g.choice("quote", ("'", '"'))
        t = g.str("t", 0, n, g.minus(g.ALPHABET, "u"))
        v = S.unquote(t, quote)
        g.assume(v is not None)
        doc = g.json("doc", doc_spec(g, 1, 1, klen=2, kinds=("int",), root=("dict", "list")))
        if where == "child":
            query, text = ("$", [("child", [("name", v)])]), "$[" + quote + t + quote + "]"
        else:
            o = g.choice("q2", ("'b'", '"b"'))
            if g.flag("first"):
                query = ("$", [("desc", [("name", v), ("name", "b")])])
                text = "$..[" + quote + t + quote + "," + o + "]"
            else:
                query = ("$", [("desc", [("name", "b"), ("name", v)])])
                text = "$..[" + o + "," + quote + t + quote + "]"
        check(g, lib, text, query, doc)

    return fn


def quotes(n):
    def fn(g, lib):
        """Longer quoted names made of quotes, backslashes and one letter."""
        quote = g.choice("quote", ("'", '"'))
        t = g.str("t", 2, n, g.ranges((34, 34), (39, 39), (92, 92), (110, 110)))
        v = S.unquote(t, quote)
        g.assume(v is not None)
        check(g, lib, "$[" + quote + t + quote + "]", ("$", [("child", [("name", v)])]),
              {v: 1, v + "n": 2, t: 3} if v != t else {v: 1, v + "n": 2})

    return fn


def uescape(g, lib):
    r"""\uXXXX and surrogate pairs in either case and either quote style."""
    quote = g.choice("quote", ("'", '"'))
    hexd = g.ranges((48, 57), (65, 70), (97, 102))
    pair = g.flag("pair")
    if pair:
        t = "\\u" + g.str("s", 1, 1, g.ranges((68, 68), (100, 100))) + "83" + g.str("h", 1, 1, hexd)
        t = t + "\\uDE" + g.str("l", 1, 1, hexd) + "0"
    else:
        t = "\\u" + g.choice("h0", ("00", "01", "0f", "0F", "D7", "e0")) + g.str("h", 2, 2, hexd)
    pre = g.str("pre", 0, 1, g.minus(g.ALPHABET, "\\"))
    v = S.unquote(pre + t, quote)
    g.assume(v is not None)
    other = g.str("k", 0, 1)
    doc = {other: 1, v: 2}
    check(g, lib, "$[" + quote + pre + t + quote + "]", ("$", [("child", [("name", v)])]), doc)


def short(n, tail):
    def fn(g, lib):
        """Dot and descendant shorthand names of at most n characters."""
        s = g.str("s", 1, n)
        g.assume(S.shorthand(s))
        kind = g.choice("kind", ("child", "desc"))
        if kind == "desc":
            g.assume(s not in S.RESERVED)
        doc = g.json("doc", doc_spec(g, 1, 1, klen=n, kinds=("int",), root=("dict",)))
        segs = [(kind, [("name", s)])]
        text = "$" + (".." if kind == "desc" else ".") + s
        t = g.choice("tail", tail)
        if t == ".a":
            segs.append(("child", [("name", "a")]))
        elif t == "..a":
            segs.append(("desc", [("name", "a")]))
        elif t == "[*]":
            segs.append(("child", [("wild",)]))
        elif t == ".*":
            segs.append(("child", [("wild",)]))
        elif t == " [0]":
            segs.append(("child", [("index", 0)]))
        check(g, lib, text + t, ("$", segs), {s: doc, "z": [doc]} if tail[0] else doc)

    return fn


def words(g, lib):
    """Shorthand names that begin with, or contain, a reserved word or an
    identifier character."""
    w = g.choice("w", ("or", "and", "in", "true", "nil", "none", "contains", "_", "not", "undefined", "null", "x"))
    s = g.choice("pre", ("", "a", "_")) + w + g.str("post", 0, 2)
    g.assume(S.shorthand(s))
    kind = g.choice("kind", ("child", "desc"))
    if kind == "desc":
        g.assume(s not in S.RESERVED)
    check(g, lib, "$" + (".." if kind == "desc" else ".") + s, ("$", [(kind, [("name", s)])]), {"a": {s: 1}, s: 2})


def index(g, lib):
    """An index of up to two digits against any value."""
    t, v = digits(g, "i", 2)
    doc = g.json("doc", doc_spec(g, 1, 3, klen=2))
    check(g, lib, "$[" + t + "]", ("$", [("child", [("index", v)])]), doc)


def index_nested(g, lib):
    """An index against any member, string members included."""
    t, v = digits(g, "i", 1)
    kind = g.choice("kind", ("child", "desc"))
    doc = {"a": g.json("doc", doc_spec(g, 1, 2, root=("null", "str", "list", "dict"), kinds=("null", "str")))}
    dots = ".." if kind == "desc" else ""
    check(g, lib, "$.a" + dots + "[" + t + "]",
          ("$", [("child", [("name", "a")]), (kind, [("index", v)])]), doc)


def slices(n, two):
    def fn(g, lib):
        """Slices with free bounds and step over arrays of every length up to n."""
        parts = []
        for nm in ("start", "end", "step"):
            if g.flag("has_" + nm):
                parts.append(digits(g, nm, 2 if two == nm else 1))
            else:
                parts.append(("", None))
        text = parts[0][0] + ":" + parts[1][0]
        if parts[2][1] is not None or g.flag("colon"):
            text = text + ":" + parts[2][0]
        doc = list(range(g.count("len", 0, n)))
        check(g, lib, "$[" + text + "]",
              ("$", [("child", [("slice", parts[0][1], parts[1][1], parts[2][1])])]), doc)

    return fn


def slice_kinds(g, lib):
    """Slices against every kind of value, strings included."""
    s = g.choice("s", (("slice", None, None, None), ("slice", 0, 1, None), ("slice", -1, None, None),
                       ("slice", None, None, -1), ("slice", 1, 0, 0), ("slice", 5, None, -2)))
    doc = [g.json("doc", doc_spec(g, 1, 2, slen=2, root=("null", "str", "list", "dict"), kinds=("null", "list")))]
    kind = g.choice("kind", ("child", "desc"))
    query = ("$", [("child", [("index", 0)]), (kind, [s])])
    check(g, lib, S.query(query), query, doc)


def programs(k, w, names, spec, styles=(("'", False), ('"', True)), **kw):
    def fn(g, lib):
        """Queries of segments and selector lists against lazy documents."""
        query = ("$", segments(g, "s", k, names, w, **kw))
        st = g.choice("style", styles)
        text = S.query(query, S.Style(st[0], st[1]))
        doc = g.json("doc", spec(g))
        via(g, lib, text, query, doc)

    return fn


def blanks(shape, two=True):
    def fn(g, lib):
        """Every blank the grammar permits, present or absent, of any kind."""
        query = shape
        text = S.query(query, S.Style(g.choice("q", ("'", '"')), g.flag("short"),
                                      blanks_at(g, 2) if two else blank1(g)))
        doc = {"a": [{"b": 1, "c": [2]}, 3, {"c": 4}], "c": 5}
        check(g, lib, text, query, doc)

    return fn


WIDE = (
    ("child", [("wild",)]), ("desc", [("wild",)]), ("child", [("slice", None, None, -1)]),
    ("child", [("slice", 2, 11, 3)]), ("child", [("slice", -11, None, None)]), ("child", [("slice", 11, 1, -4)]),
    ("child", [("slice", -9007199254740991, 9007199254740991, 1)]),
    ("child", [("slice", 9007199254740991, -9007199254740991, -9007199254740991)]),
    ("child", [("index", 10)]), ("child", [("index", -11)]), ("desc", [("index", 1)]), ("desc", [("index", 11)]),
    ("desc", [("slice", 1, None, 10)]), ("child", [("name", "10")]), ("child", [("name", "2"), ("index", 2)]),
    ("child", [("wild",), ("wild",)]), ("desc", [("name", "1"), ("name", "a")]),
)


SHARED = (("desc", [("wild",)]), ("desc", [("name", "a")]), ("child", [("wild",), ("index", 0)]), ("desc", [("index", -1), ("name", "a")]),
          ("child", [("slice", None, None, -1)]), ("child", [("name", "a"), ("name", "a")]))


def wider(g, lib):
    """Long arrays and objects: document order, not that of the names."""
    query = ("$", [g.choice("seg", WIDE)])
    check(g, lib, S.query(query), query, wide(g))


def wide_index(g, lib):
    """Free two-digit indices and slice bounds against long arrays and objects."""
    k = g.choice("k", ("index", "start", "end", "step", "name"))
    seg = g.choice("seg", ("child", "desc"))
    dots = ".." if seg == "desc" else ""
    t, v = digits(g, "d", 2, k != "name")
    if k == "index":
        text, sel = t, ("index", v)
    elif k == "start":
        text, sel = t + "::-1", ("slice", v, None, -1)
    elif k == "end":
        text, sel = "1:" + t + ":2", ("slice", 1, v, 2)
    elif k == "step":
        text, sel = "::" + t, ("slice", None, None, v)
    else:
        text, sel = "'" + t + "'", ("name", t)
    doc = wide(g)
    check(g, lib, "$" + dots + "[" + text + "]", ("$", [(seg, [sel])]), doc)


def taller(g, lib):
    """Deep documents under one or two descendant segments."""
    segs = [g.choice("seg", (("desc", [("name", "a")]), ("desc", [("wild",)]), ("desc", [("index", 1)]),
                             ("desc", [("index", -1), ("name", "b")]), ("desc", [("slice", None, None, -1)])))]
    for i in range(g.count("more", 0, 1)):
        segs.append(g.choice("seg2", (("desc", [("name", "b")]), ("desc", [("index", 0)]), ("child", [("wild",)]))))
    query = ("$", segs)
    check(g, lib, S.query(query, S.Style("'", g.flag("short"))), query, tall(g, most=6 if len(segs) > 1 else 12))


def huge(g, lib):
    """Documents of hundreds of members or scores of levels."""
    doc, segs = vast(g)
    query = ("$", [segs[g.count("s", 0, len(segs) - 1)]])
    check(g, lib, S.query(query), query, doc)


def shared(g, lib):
    """Documents in which a container, or an equal one, occurs more than once."""
    query = ("$", [g.choice("s%d" % i, SHARED) for i in range(g.count("n", 1, 2))])
    via(g, lib, S.query(query), query, aliased(g))


LAST = (("child", [("wild",)]), ("child", [("index", -2)]), ("child", [("slice", 1, None, None)]), ("child", [("slice", None, None, -1)]),
        ("child", [("slice", -1, 0, -2)]), ("child", [("name", ""), ("name", "a")]), ("child", [("index", 0), ("wild",), ("index", 0)]),
        ("desc", [("wild",)]), ("desc", [("name", "a")]), ("desc", [("index", -1)]), ("desc", [("slice", None, 1, None), ("name", "b")]),
        ("child", [("name", "b"), ("slice", None, None, 2)]))


def texts(g, lib):
    """Strings that are JSON texts are strings."""
    query = ("$", [g.choice("s%d" % i, SHARED + LAST[:4]) for i in range(g.count("n", 1, 2))])
    via(g, lib, S.query(query), query, textual(g))


def buried(g, lib):
    """Every kind of selector at every depth down to six, one more after it."""
    doc, segs = deep(g)
    if g.flag("free"):
        t, v = digits(g, "d", 1)
        segs.append(g.choice("sel", (("child", [("index", v)]), ("child", [("slice", v, None, -1)]), ("desc", [("slice", None, v, None)]))))
    else:
        segs.append(g.choice("seg", LAST))
        if g.flag("more"):
            segs.append(g.choice("seg2", (LAST[0], LAST[3])))
    via(g, lib, S.query(("$", segs), S.Style("'", True)), ("$", segs), doc)


def many(g, lib):
    """Bracketed lists of up to seven selectors, with repetitions."""
    sels = [g.choice("s%d" % (i % 2), (("name", "a"), ("index", 0), ("wild",), ("slice", 1, None, None), ("index", -1)))
            for i in range(g.count("n", 3, 7))]
    query = ("$", [(g.choice("kind", ("child", "desc")), sels)])
    check(g, lib, S.query(query), query, g.choice("doc", ({"a": [1, [2, 3]], "b": 0}, [[1], {"a": 2}, 3], {})))


def long_path(g, lib):
    """Queries of up to eight segments."""
    n = g.count("n", 3, 8)
    kinds = [g.choice("k%d" % (i % 3), (("child", [("name", "a")]), ("child", [("index", 1)]), ("child", [("wild",)]),
                                        ("desc", [("name", "a")]))) for i in range(n)]
    g.assume(len([k for k in kinds if k[0] == "desc"]) < 4)
    query = ("$", kinds)
    doc = 5
    for i in range(n + 1):
        j = n - i
        doc = {"a": doc, "c": 1} if j < n and kinds[j][1][0] == ("name", "a") else [j, doc] if j % 2 else [0, doc, {"a": 1}]
    check(g, lib, S.query(query, S.Style('"', g.flag("short"))), query, doc)


N = lambda *a: ("child", [("name", x) for x in a])
BLANK1 = ("$", [N("a"), ("desc", [("name", "c")]), ("child", [("wild",)])])
BLANK2 = ("$", [N("a"), ("child", [("index", 0), ("slice", 0, 2, 1)])])
BLANK3 = ("$", [("desc", [("name", "c"), ("index", 1)])])

AB = ("a", "b")
S2 = lambda g: doc_spec(g, 2, 2, keys=("a", "b"), kinds=("str", "list", "dict"), strs=("x",), slen=1,
                        root=("list", "dict"))
S21 = lambda g: doc_spec(g, 2, 2, keys=("a", "b"), kinds=("str", "list", "dict"), strs=("x",), cwidth=1,
                         root=("list", "dict"))
S3 = lambda g: doc_spec(g, 3, 1, keys=("a", "b"), kinds=("int", "str", "list", "dict"), slen=1,
                        root=("list", "dict"))
S32 = lambda g: doc_spec(g, 3, 2, keys=("a", "b"), kinds=("int", "str", "list", "dict"), slen=1,
                         root=("list", "dict"))

SCENARIOS = [
    Scenario("quoted", quoted(3, "child")),
    Scenario("quoted-list", quoted(2, "desc")),
    Scenario("quoted4", quoted(5, "child"), tier="thorough"),
    Scenario("quotes", quotes(5)),
    Scenario("quotes7", quotes(7), tier="thorough"),
    Scenario("wide", wider),
    Scenario("wide-index", wide_index),
    Scenario("tall", taller),
    Scenario("many", many),
    Scenario("huge", huge),
    Scenario("texts", texts),
    Scenario("shared", shared),
    Scenario("buried", buried),
    Scenario("long-path", long_path),
    Scenario("uescape", uescape),
    Scenario("short", short(2, ("", ".a", "..a", " [0]"))),
    Scenario("short3", short(3, ("", "[*]", ".*")), tier="thorough"),
    Scenario("words", words),
    Scenario("index", index),
    Scenario("index-nested", index_nested),
    Scenario("slices", slices(4, "")),
    Scenario("slices2", slices(7, "step"), tier="thorough"),
    Scenario("slice-kinds", slice_kinds),
    Scenario("program1", programs(1, 2, AB, S21, (("'", False),))),
    Scenario("program2", programs(2, 1, AB, S21, (('"', True),), slices=(("slice", 1, None, None), ("slice", None, None, -1)))),
    Scenario("program1-wide", programs(1, 2, AB, S2), tier="thorough"),
    Scenario("program2-wide", programs(2, 1, AB, S2), tier="thorough"),
    Scenario("deep", programs(2, 1, ("a",), S3, idx=(0,), kinds=("name", "index", "wild"))),
    Scenario("program3", programs(3, 2, AB, S32), tier="thorough"),
    Scenario("blanks1", blanks(BLANK1)),
    Scenario("blanks2", blanks(BLANK2)),
    Scenario("blanks3", blanks(BLANK3)),
    Scenario("blanks1-all", blanks(BLANK1, False), tier="thorough"),
    Scenario("blanks2-all", blanks(BLANK2, False), tier="thorough"),
    Scenario("blanks3-all", blanks(BLANK3, False), tier="thorough"),
]
