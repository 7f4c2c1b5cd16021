"""C20: a match's pointer as patch target edits exactly the matched node."""
from checks.queries import TEXTS, doc_spec, segments, vast
from checks.util import attempt, name
from ref import query as Q
from ref import spell as S
from se.harness import Scenario

NEW = ([1], {"n": None}, False)


def put(doc, loc, v):
    """A copy of doc with the node at loc replaced, or removed if v is GONE."""
    if len(loc) == 0:
        return v
    h = loc[0]
    if isinstance(doc, dict):
        out = {}
        for k in doc:
            if k == h:
                if len(loc) > 1 or v is not GONE:
                    out[k] = put(doc[k], loc[1:], v)
            else:
                out[k] = doc[k]
        return out
    out = []
    for i in range(len(doc)):
        if i == h:
            if len(loc) > 1 or v is not GONE:
                out.append(put(doc[i], loc[1:], v))
        else:
            out.append(doc[i])
    return out


GONE = object()


def edit(g, lib, m, loc, v, make, op, new=None):
    """One operation through the pointer of match m."""
    ptr = m.pointer()
    if op == "test":
        kind, got = attempt(lambda: lib.JSONPatch().test(ptr, g.copy(m.obj)).apply(make()))
        want = make()
    elif op == "replace":
        kind, got = attempt(lambda: lib.JSONPatch().replace(ptr, new).apply(make()))
        want = put(make(), loc, new)
    else:
        kind, got = attempt(lambda: lib.JSONPatch().remove(ptr).apply(make()))
        want = put(make(), loc, GONE)
    if kind == "err":
        g.fail(op + " through a match's pointer fails: " + name(got))
    g.trace([op, got])
    g.require(g.eq(got, want), op + " through a match's pointer gives another document")


def pipeline(g, lib, text, query, make, limit=8):
    doc = make()
    want = Q.run(query, doc, g.eq)
    got = list(lib.finditer(text, doc))
    g.require(len(got) == len(want), "finditer: number of matches")
    if not want:
        return
    i = g.count("match", 0, min(limit, len(want)) - 1)
    m, (loc, v) = got[i], want[i]
    op = g.choice("op", ("test", "replace", "remove"))
    if op == "remove" and len(loc) == 0:
        return
    edit(g, lib, m, loc, v, make, op, g.choice("new", NEW) if op == "replace" else None)


def names(n):
    def fn(g, lib):
        """A free name above and below another name, in objects and arrays."""
        k = g.str("k", 0, n)
        shape = g.choice("shape", ("leaf", "object", "array", "deep"))
        g.assume(k != "z")

        def make():
            if shape == "leaf":
                return {"z": 0, k: 1}
            if shape == "object":
                return {k: {k: [0], "z": 1}}
            if shape == "array":
                return [{k: [0, 1]}, {k: 2}]
            return {"z": {k: {"0": [k]}}}

        q = "$..*" if g.flag("desc") else "$.*"
        pipeline(g, lib, q, ("$", [("desc" if q == "$..*" else "child", [("wild",)])]), make)

    return fn


def pair(g, lib):
    """Two free names of one character, one below the other or beside it."""
    a, b = g.str("a", 0, 1), g.str("b", 0, 1)
    beside = g.flag("beside")
    if beside:
        g.assume(a != b)

    def make():
        return {a: 1, b: [2]} if beside else {a: {b: 1}}

    query = ("$", [("desc", [("wild",)])])
    pipeline(g, lib, "$..*", query, make)


def lookalikes(n):
    def fn(g, lib):
        """Names made of digits, signs, '~', '/', '-', '#' beside arrays."""
        k = g.str("k", 1, n, g.ranges((35, 35), (43, 43), (45, 45), (47, 57), (126, 126), (32, 32), (95, 95), (0x661, 0x661)))
        query = ("$", [("desc", [("wild",)])])
        pipeline(g, lib, "$..*", query, lambda: {k: [{k: 0}, [5, 6]], "zz": 1})

    return fn


def programs(k, w, spec, **kw):
    def fn(g, lib):
        """Queries of segments and lists against lazy documents."""
        query = ("$", segments(g, "s", k, ("a", "0"), w, filters=FILTERS, **kw))
        pipeline(g, lib, S.query(query), query, lambda: g.json("doc", spec(g)))

    return fn


def both(g, lib):
    """test and replace, then remove, of one match in one patch."""
    k = g.str("k", 0, 1)

    def make():
        return {"x": {k: [1, {k: None}]}}

    doc = make()
    want = Q.run(("$", [("desc", [("wild",)])]), doc, g.eq)
    got = list(lib.finditer("$..*", doc))
    i = g.count("match", 0, len(want) - 1)
    loc, v = want[i]
    ptr = got[i].pointer()
    p = lib.JSONPatch().test(ptr, g.copy(v)).replace(ptr, [7]).test(ptr, [7]).remove(ptr)
    kind, out = attempt(p.apply, make())
    if kind == "err":
        g.fail("a patch of a match's pointer fails: " + name(out))
    g.require(g.eq(out, put(make(), loc, GONE)), "test, replace and remove give another document")
    kind, out = attempt(lambda: lib.JSONPatch([{"op": "replace", "path": str(ptr), "value": [7]}],
                                              unicode_escape="\\" not in str(ptr)).apply(make()))
    if kind == "err":
        g.fail("a patch of a match's pointer text fails: " + name(out))
    g.require(g.eq(out, put(make(), loc, [7])), "a replace at a match's pointer text gives another document")


def long(g, lib):
    """Long arrays and objects, alone and nested."""
    n = g.choice("n", (1, 10, 11, 13))
    shape = g.choice("shape", ("list", "dict", "rev", "lists", "dicts"))
    i = g.int("i", -13, 12)
    sel = g.choice("sel", ("index", "wild", "slice", "name"))
    if sel == "index":
        s = ("index", i)
    elif sel == "name":
        g.assume(i >= 0)
        s = ("name", str(i))
    elif sel == "slice":
        s = ("slice", g.choice("from", (None, -2, 9)), None, g.choice("step", (-1, 5)))
    else:
        s = ("wild",)
    query = ("$", [("child", [s])] + ([("child", [("wild",)])] if shape in ("lists", "dicts") else []))

    def make():
        if shape == "list":
            return list(range(n))
        if shape == "dict":
            return {str(j): j for j in range(n)}
        if shape == "rev":
            return {str(n - 1 - j): j for j in range(n)}
        return [[j, [j]] if shape == "lists" else {"a": j, "1": [j]} for j in range(n)]

    pipeline(g, lib, S.query(query), query, make, 26)


def huge(g, lib):
    """Matches in documents of hundreds of members or scores of levels."""
    doc, segs = vast(g, sizes=(130,), depths=(70,))
    query = ("$", [segs[g.count("s", 0, len(segs) - 1)]])
    want = Q.run(query, doc, g.eq)
    got = list(lib.finditer(S.query(query), doc))
    g.require(len(got) == len(want), "finditer: number of matches")
    i = g.choice("at", (0, 1, 66, 128))
    g.assume(i < len(want))
    op = g.choice("op", ("test", "replace", "remove"))
    edit(g, lib, got[i], want[i][0], want[i][1], lambda: g.copy(doc), op, "new" if op == "replace" else None)


def deep(g, lib):
    """Locations of up to twelve steps, one name free."""
    n = g.choice("n", (1, 2, 6, 12))
    k = g.str("k", 0, 1)
    at = g.choice("at", (0, 5))
    kind = g.choice("kind", ("dict", "list", "both"))

    def make():
        v = 1
        for i in range(n):
            if i == at:
                v = {k: v, "zz": 0}
            elif kind == "list" or (kind == "both" and i % 2):
                v = [0, v]
            else:
                v = {"0": 0, "a": v}
        return v

    query = ("$", [("desc", [("wild",)])])
    pipeline(g, lib, "$..*", query, make, 24)


def falsy(g, lib):
    """Values that are null, false, zero or empty are tested, replaced and
    removed like others, and put in the place of others."""
    vs = (None, False, 0, "", [], {}, 0.0, True, 1) + TEXTS[:4]
    v = g.choice("v", vs)
    new = g.choice("new", vs[:9] + TEXTS[:1])
    k = g.choice("k", ("a", "0", "-", ""))

    def make():
        return {k: v, "l": [v, v], "zz": {k: v}}

    doc = make()
    query = ("$", [("desc", [("wild",)])])
    want = Q.run(query, doc, g.eq)
    got = list(lib.finditer("$..*", doc))
    i = g.count("match", 0, len(want) - 1)
    edit(g, lib, got[i], want[i][0], want[i][1], make, g.choice("op", ("test", "replace", "remove")), new)


def in_turn(g, lib):
    """All matches of a query edited through their pointers, the last one first,
    in one patch or one after the other."""
    sel = g.choice("sel", (("wild",), ("slice", None, None, -1), ("slice", 1, None, None), ("index", -1)))
    query = ("$", [("child", [("name", "x")]), ("child", [sel])])
    k = g.str("k", 0, 1)
    shape = g.choice("shape", ("list", "dict"))
    n = g.count("n", 0, 3)
    g.assume(k != "b")
    g.assume(k != "c")

    def make():
        return {"x": [{k: j} for j in range(n)] if shape == "list" else {nm: j for j, nm in list(enumerate((k, "b", "c")))[:n]}, "y": {k: 0}}

    doc = make()
    want = sorted([loc for loc, _ in Q.run(query, doc, g.eq)], key=lambda loc: loc[-1] if shape == "list" else 0)
    got = list(lib.finditer(S.query(query), doc))
    g.require(len(got) == len(want), "finditer: number of matches")
    if shape == "list":
        got = sorted(got, key=lambda m: m.parts[-1])
    op = g.choice("op", ("replace", "remove"))
    new = g.choice("new", NEW)
    out = make()
    p = lib.JSONPatch()
    for loc, m in reversed(list(zip(want, got))):
        out = put(out, loc, new if op == "replace" else GONE)
        p = p.replace(m.pointer(), new) if op == "replace" else p.remove(m.pointer())
    own = g.flag("own")  # the document the query ran on, or an equal one
    kind, res = attempt(p.apply, doc if own else make())
    if kind == "err":
        g.fail("a patch of all matches fails: " + name(res))
    g.trace(res)
    g.require(g.eq(res, out), op + " of all matches gives another document")


FILTERS = (("q", ("@", [("child", [("name", "a")])])), ("not", ("q", ("@", [("child", [("index", 0)])]))))
S2 = lambda g: doc_spec(g, 2, 2, keys=("a", "0"), kinds=("int", "list", "dict"), ints=(1, 2), cwidth=1, root=("list", "dict"))
S3 = lambda g: doc_spec(g, 3, 2, keys=("a", "0"), kinds=("null", "int", "list", "dict"), ints=(1, 2), root=("list", "dict"))
ALLK = ("name", "index", "slice", "wild", "filter")

SCENARIOS = [
    Scenario("names", names(1)),
    Scenario("names2", names(2), tier="thorough"),
    Scenario("pair", pair),
    Scenario("lookalikes", lookalikes(2)),
    Scenario("lookalikes3", lookalikes(3), tier="thorough"),
    Scenario("program1", programs(1, 1, S2, kinds=ALLK)),
    Scenario("program2", programs(2, 1, S2, kinds=("name", "index", "wild"), idx=(0, -1))),
    Scenario("program-lists", programs(2, 2, S3, kinds=ALLK), tier="thorough"),
    Scenario("both", both),
    Scenario("long", long),
    Scenario("deep", deep),
    Scenario("huge", huge),
    Scenario("falsy", falsy),
    Scenario("in-turn", in_turn),
]
