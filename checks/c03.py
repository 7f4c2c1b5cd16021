"""C03: path, parts, pointer and parent of a match identify exactly its node."""
from checks.queries import aliased, textual, deep, digits, doc_spec, segments, tall, vast, wide
from checks.util import attempt, name
from ref import pointer as P
from ref import query as Q
from ref import spell as S
from se.harness import Scenario


def located(g, m, loc, v, doc):
    g.require(len(m.parts) == len(loc), "a match has another number of parts")
    for p, w in zip(m.parts, loc):
        g.require(isinstance(p, str) == isinstance(w, str), "a part of a match is of the wrong type")
        g.require(p == w, "a part of a match is not that of its node")
    g.require(g.same(m.obj, v), "a match holds another value")
    g.require(g.same(m.value, v), "a match has another value")
    g.require(m.path == Q.normalized(loc), "the path of a match is no normalized path of its node")
    g.require(m.root is doc or g.same(m.root, doc), "a match has another root")


def follow(g, lib, m, loc, v, doc):
    """Path, pointer and parent lead back to the node."""
    kind, again = attempt(lambda: list(lib.finditer(m.path, doc)))
    if kind == "err":
        g.fail("the path of a match is no query: " + name(again))
    g.require(len(again) == 1, "the path of a match does not select one node")
    located(g, again[0], loc, v, doc)
    p = m.pointer()
    g.require(g.same(p.resolve(doc), v), "the pointer of a match resolves to something else")
    text = str(p)
    g.require(text == P.spell([str(x) for x in loc]), "the pointer of a match is spelled wrongly")
    esc = "\\" not in text
    kind, r = attempt(lambda: lib.JSONPointer(text, unicode_escape=esc).resolve(doc))
    if kind == "err":
        g.fail("the text of a match's pointer does not resolve: " + name(r))
    g.require(g.same(r, v), "the text of a match's pointer resolves to something else")
    if len(loc) == 0:
        g.require(m.parent is None, "the root match has a parent")
    n, up = len(loc), m.parent
    while up is not None:
        n = n - 1
        g.require(n >= 0, "a match has too many ancestors")
        located(g, up, loc[:n], Q.at(doc, loc[:n]), doc)
        up = up.parent
    g.require(n == 0, "a match's chain of parents misses a node")


def check(g, lib, text, query, doc, deep=True):
    want = Q.run(query, doc, g.eq)
    got = list(lib.finditer(text, doc))
    g.trace([text, [m.path for m in got]])
    g.require(len(got) == len(want), "finditer: number of matches")
    for m, (loc, v) in zip(got, want):
        located(g, m, loc, v, doc)
        if deep:
            follow(g, lib, m, loc, v, doc)
    for i in range(len(got)):
        for j in range(i):
            same = want[i][0] == want[j][0]
            g.require((got[i].path == got[j].path) == same, "equal paths for different nodes, or conversely")


FILTER = ("filter", ("not", ("q", ("@", [("child", [("name", "zz")])]))))
SELS = {"wild": [("wild",)], "filter": [FILTER], "twice": [("wild",), FILTER]}


def names(n, kinds=("wild", "filter"), alpha=None):
    def fn(g, lib):
        """A member name of at most n characters of any kind."""
        k = g.str("k", 0, n, alpha or g.ALPHABET)
        sels = SELS[g.choice("sel", kinds)]
        seg = g.choice("seg", ("child", "desc"))
        query = ("$", [(seg, sels)])
        doc = {k: g.choice("v", (0, "x"))}
        check(g, lib, S.query(query), query, doc)

    return fn


def by_name(g, lib):
    """A node selected by its own name, in either quote style."""
    k = g.str("k", 0, 2)
    q = g.choice("quote", ("'", '"'))
    query = ("$", [("child", [("name", k)])])
    check(g, lib, S.query(query, S.Style(q)), query, {k: None, "other": 1})


def backslash(g, lib):
    """The pointer text of names with a backslash, read with escape decoding."""
    k = g.str("k", 0, 1) + "\\" + g.str("k2", 0, 1)
    doc = {k: 1}
    text = str(lib.match("$.*", doc).pointer())
    g.trace(text)
    kind, r = attempt(lambda: lib.JSONPointer(text).resolve(doc))
    if kind == "err" or not g.same(r, 1):
        g.fail("the pointer text of a name with a backslash is not read back")


def two_names(g, lib):
    """Two names of a character each, nested or side by side, look-alikes included."""
    a = g.str("a", 0, 1)
    b = g.str("b", 0, 1)
    shape = g.choice("shape", ("nested", "beside", "array"))
    if shape == "nested":
        doc = {a: {b: 1}}
    elif shape == "array":
        doc = [{a: 1}, {b: 1}]
    else:
        g.assume(a != b)
        doc = {a: [1], b: [1]}
    query = ("$", [("desc", [("wild",)])])
    check(g, lib, "$..*", query, doc)


def digit_names(g, lib):
    """Names that look like indices or signed numbers, beside arrays."""
    k = g.str("k", 1, 2, g.ranges((43, 43), (45, 45), (48, 57), (35, 35), (126, 126), (32, 32), (95, 95)))
    query = ("$", [("desc", [("wild",)])])
    check(g, lib, "$..*", query, {k: [{k: 0}], "0": {"0": []}} if k != "0" else {k: [{k: 0}]})


def indices(g, lib):
    """Negative indices and slices with any step report non-negative indices."""
    n = g.count("n", 0, 4)
    doc = {"a": [[i] for i in range(n)]}
    if g.flag("slice"):
        b = (None, 0, 1, 2, -1, -2, 5, -5)
        s = ("slice", g.choice("start", b), g.choice("end", b), g.choice("step", (None, 1, 2, -1, -2)))
    else:
        s = ("index", g.choice("i", (0, 1, 3, -1, -2, -4, -5)))
    seg = g.choice("seg", ("child", "desc"))
    query = ("$", [("child", [("name", "a")]), (seg, [s])])
    check(g, lib, S.query(query), query, doc)


def index_name(g, lib):
    """An index against objects (the documented departure)."""
    i = g.choice("i", (0, 1, -1, 10))
    k = g.str("k", 1, 2, g.ranges((45, 45), (48, 57)))
    seg = g.choice("seg", ("child", "desc"))
    query = ("$", [(seg, [("index", i)])])
    check(g, lib, S.query(query), query, {k: {k: [1]}})


def wider(g, lib):
    """Long arrays and objects: free two-digit indices, slice bounds, wildcards."""
    k = g.choice("k", ("index", "start", "wild", "name"))
    seg = g.choice("seg", ("child", "desc"))
    if k == "wild":
        sel = ("wild",)
    else:
        t, v = digits(g, "d", 2, k != "name")
        sel = ("index", v) if k == "index" else ("slice", v, None, -3) if k == "start" else ("name", t)
    query = ("$", [(seg, [sel])])
    check(g, lib, S.query(query), query, wide(g, most=12))


def shared(g, lib):
    """Documents in which a container, or an equal one, occurs more than once,
    or a string that is a JSON text stands beside the value it denotes."""
    query = ("$", [g.choice("seg", (("desc", [("wild",)]), ("desc", [("name", "a")]), ("child", [("wild",), FILTER]), ("desc", [FILTER]),
                                    ("desc", [("index", -1)]), ("child", [("slice", None, None, -1)])))])
    if g.flag("more"):
        query[1].append(("child", [("wild",)]))
    check(g, lib, S.query(query), query, textual(g) if g.flag("texts") else aliased(g))


def taller(g, lib):
    """Nodes at every depth of a deep document."""
    query = ("$", [g.choice("seg", (("desc", [("wild",)]), ("desc", [("name", "a")]), ("desc", [("index", -1)])))])
    check(g, lib, S.query(query), query, tall(g, most=8))


def huge(g, lib):
    """Nodes of documents of hundreds of members or scores of levels."""
    doc, segs = vast(g, sizes=(70, 130), depths=(35, 70))
    seg = segs[g.count("s", 0, len(segs) - 1)]
    n = 0
    query = ("$", [seg])
    want = Q.run(query, doc, g.eq)
    got = list(lib.finditer(S.query(query), doc))
    g.require(len(got) == len(want), "finditer: number of matches")
    g.require(len(set(m.path for m in got)) == len(set(loc for loc, _ in want)), "equal paths for different nodes, or conversely")
    for i in (0, 1, 33, 66, 68, 100, 129):
        if i < len(got):
            located(g, got[i], want[i][0], want[i][1], doc)
            follow(g, lib, got[i], want[i][0], want[i][1], doc)
    if got:
        located(g, got[-1], want[-1][0], want[-1][1], doc)
        follow(g, lib, got[-1], want[-1][0], want[-1][1], doc)


LAST = (("child", [("wild",)]), ("child", [("index", -2)]), ("child", [("slice", 1, None, None)]), ("child", [("slice", None, None, -1)]),
        ("child", [("name", ""), ("name", "a")]), ("child", [FILTER]), ("desc", [("wild",)]), ("desc", [("index", -1)]), ("desc", [FILTER]),
        ("child", [("name", "b"), ("slice", None, None, 2)]))


def buried(g, lib):
    """Every kind of selector at every depth down to six."""
    doc, segs = deep(g)
    segs.append(g.choice("seg", LAST))
    check(g, lib, S.query(("$", segs)), ("$", segs), doc)


FILTERS = (("q", ("@", [("child", [("name", "a")])])), ("cmp", "==", ("q", ("@", [])), ("lit", 1)))


def programs(k, w, spec, **kw):
    def fn(g, lib):
        """Queries of segments and selector lists against lazy documents."""
        query = ("$", segments(g, "s", k, ("a", "'"), w, filters=FILTERS, **kw))
        doc = g.json("doc", spec(g))
        check(g, lib, S.query(query), query, doc)

    return fn


def views(g, lib):
    """NodeList.paths(), Query.locations(), Query.pointers() and items()."""
    k = g.str("k", 0, 2)
    query = ("$", [("desc", [("wild",)])])
    doc = {k: [{"x": 0}], "'": 1}
    g.assume(k != "'")
    want = Q.run(query, doc, g.eq)
    from_nodes = lib.NodeList(lib.finditer("$..*", doc)) if hasattr(lib, "NodeList") else None
    locs = list(lib.query("$..*", doc).locations())
    ptrs = list(lib.query("$..*", doc).pointers())
    items = list(lib.query("$..*", doc).items())
    g.trace([locs, [str(p) for p in ptrs]])
    g.require(len(locs) == len(want), "locations(): number")
    g.require(len(ptrs) == len(want), "pointers(): number")
    g.require(len(items) == len(want), "items(): number")
    if from_nodes is not None:
        g.require(len(from_nodes.paths()) == len(want), "NodeList.paths(): number")
        for p, w in zip(from_nodes.paths(), want):
            g.require(p == Q.normalized(w[0]), "NodeList.paths(): path")
    for i in range(len(want)):
        loc, v = want[i]
        g.require(locs[i] == Q.normalized(loc), "locations(): path")
        g.require(items[i][0] == Q.normalized(loc), "items(): path")
        g.require(g.same(items[i][1], v), "items(): value")
        g.require(g.same(ptrs[i].resolve(doc), v), "pointers(): value")


S2 = lambda g: doc_spec(g, 2, 2, keys=("a", "'"), kinds=("int", "list", "dict"), ints=(1, 2), strs=("x",), cwidth=1,
                        root=("list", "dict"))
S3 = lambda g: doc_spec(g, 3, 2, keys=("a", "'"), kinds=("int", "str", "list", "dict"), ints=(1, 2), strs=("x",),
                        root=("list", "dict"))
ALLK = ("name", "index", "slice", "wild", "filter")

SCENARIOS = [
    Scenario("names", names(2)),
    Scenario("names3", names(3, ("wild",)), tier="thorough"),
    Scenario("by-name", by_name),
    Scenario("backslash", backslash),
    Scenario("two-names", two_names),
    Scenario("digit-names", digit_names),
    Scenario("indices", indices),
    Scenario("wide", wider),
    Scenario("tall", taller),
    Scenario("huge", huge),
    Scenario("shared", shared),
    Scenario("buried", buried),
    Scenario("index-name", index_name),
    Scenario("program1", programs(1, 2, S2, kinds=ALLK, idx=(0, -1), slices=(("slice", None, None, -1), ("slice", 1, None, None)))),
    Scenario("program2", programs(2, 1, S2, kinds=ALLK, idx=(0, -1), slices=(("slice", None, None, -1),))),
    Scenario("program3", programs(3, 2, S3, kinds=ALLK), tier="thorough"),
    Scenario("views", views),
]
