"""C08: the asynchronous API returns exactly what the synchronous API returns."""
from collections.abc import Mapping, Sequence

from checks.queries import TEXTS, aliased, textual, deep, digits, doc_spec, segments, tall, vast, wide
from checks.util import attempt, name
from ref import spell as S
from se.harness import Scenario


class Pause:
    """Awaiting it gives up control once."""

    def __await__(self):
        yield None


def drive(coro):
    """Run a coroutine to its end; pauses are resumed at once."""
    while True:
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value


def interleave(g, coros):
    """Run coroutines together, the next one to resume being free."""
    live = [(i, c) for i, c in enumerate(coros)]
    out = [None] * len(coros)
    n = 0
    while live:
        k = g.count("turn%d" % n, 0, len(live) - 1) if n < 6 else 0
        n = n + 1
        i, c = live[k]
        try:
            c.send(None)
        except StopIteration as e:
            out[i] = ("ok", e.value)
            live = live[:k] + live[k + 1:]
        except Exception as e:
            out[i] = ("err", e)
            live = live[:k] + live[k + 1:]
    return out


class AMap(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    async def __getitem_async__(self, k):
        await Pause()
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class ASeq(Sequence):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    async def __getitem_async__(self, k):
        await Pause()
        return self.d[k]

    def __len__(self):
        return len(self.d)


def wrap(v):
    """The same document with asynchronous item getters."""
    if isinstance(v, dict):
        return AMap({k: wrap(x) for k, x in v.items()})
    if isinstance(v, list):
        return ASeq([wrap(x) for x in v])
    return v


async def collect(lib, how, text, doc, kw):
    if how == "findall":
        return [(None, v) for v in await lib.findall_async(text, doc, **kw)]
    if how == "compiled.findall":
        return [(None, v) for v in await lib.compile(text).findall_async(doc, **kw)]
    if how == "compiled.finditer":
        it = await lib.compile(text).finditer_async(doc, **kw)
    else:
        it = await lib.finditer_async(text, doc, **kw)
    return [(m, m.obj) async for m in it]


HOWS = ("findall", "finditer", "compiled.findall", "compiled.finditer")


def sync(lib, text, doc, kw):
    return list(lib.finditer(text, doc, **kw))


def against(g, how, want, got):
    """want, got: ("ok", ...) or ("err", exception)."""
    if want[0] == "err":
        if got[0] != "err":
            g.fail(how + "_async succeeds where the synchronous call fails")
        g.require(type(got[1]) is type(want[1]), how + "_async fails with another error")
        return
    if got[0] == "err":
        g.fail(how + "_async fails where the synchronous call does not: " + name(got[1]))
    g.require(len(got[1]) == len(want[1]), how + "_async: number of matches")
    for (m, v), w in zip(got[1], want[1]):
        if v is not w.obj and w.path == "$" and w.parent is None and isinstance(v, list) and isinstance(w.obj, list) and len(v) == len(w.obj) == 1:
            # The fake root's value is made anew by each evaluation.
            g.require(g.same(v[0], w.obj[0]), how + "_async: another value")
        else:
            g.require(g.same(v, w.obj), how + "_async: another value")
        if m is not None:
            g.require(m.path == w.path, how + "_async: another path")
            g.require(len(m.parts) == len(w.parts), how + "_async: other parts")
            for p, q in zip(m.parts, w.parts):
                g.require(p == q, how + "_async: other parts")
            g.require((m.parent is None) == (w.parent is None), how + "_async: another parent")
            if m.parent is not None:
                g.require(m.parent.path == w.parent.path, how + "_async: another parent")


def compare(g, lib, text, doc, kw, hows=HOWS):
    want = attempt(sync, lib, text, doc, kw)
    g.trace([text, want[0], len(want[1]) if want[0] == "ok" else name(want[1])])
    for how in hows:
        against(g, how, want, attempt(drive, collect(lib, how, text, doc, kw)))
    return want


FILTERS = (("q", ("@", [("child", [("name", "a")])])), ("not", ("q", ("@", [("child", [("index", 0)])]))),
           ("cmp", "==", ("q", ("@", [])), ("q", ("$", [("child", [("index", 0)])]))))
ALLK = ("name", "index", "slice", "wild", "filter", "keys")


def programs(k, w, spec, hows=HOWS, **kw):
    def fn(g, lib):
        """Standard and keys selectors against lazy documents."""
        query = ("$", segments(g, "s", k, ("a",), w, filters=FILTERS, **kw))
        doc = g.json("doc", spec(g))
        compare(g, lib, S.query(query), doc, {}, hows)

    return fn


EXPRS = (
    "@", "!@.a", "@.a && @.b", "!(@.a || @ == 1)", "@.a == $[0]", "@ == @.a", "@ < 2", "@ <= 's'", "'s' > @", "# == 0", "# == 'a'",
    "# in _.names", "@ in [0, 's', null]", "_.x == @", "@.a in $.b", "$ contains 'a'", "@ contains 's'", "'a' in @",
    "@ =~ /s/", "@ =~ /S/i", "@.a == undefined", "@ != missing", "_.nope", "_", "count(@.*) == 1", "length(@) > 0",
    "value(@..a) == 1", "match(@, 's')", "search(@.a, 's')", "isinstance(@, 'array')", "typeof(@) == 'string'", "is(@.a, 'number')",
    "@[?@ == $[0]]", "@[?# == 0]", "@[?_.x == @]", "@.*", "@..a", "$..a", "^[?@]", "^[0] == $", "@ == null", "@ == nil && # != 1",
    "count($..*) > 1", "@ == _.x || @[?@ > 0]", "not @.a and @ <> 1 or @ == True", "@[~]", "@.~",
)


def filters(exprs, spec, hows=HOWS):
    def fn(g, lib):
        """Filter expressions, standard and extended, against lazy documents."""
        e = g.choice("e", exprs)
        doc = g.json("doc", spec(g))
        seg = g.choice("seg", ("$[?", "$..[?"))
        extra = {"x": g.choice("x", (0, "s")), "names": ["a", 0]}
        kw = {"filter_context": extra} if g.flag("context") else {}
        compare(g, lib, seg + e + "]", doc, kw, (g.choice("how", hows),))

    return fn


ODD = (
    "$", "^", "^[0]", "^[?@.a]", "^..*", "a", "a[b]", "$.a.b", "$.~", "$..~", "$[~]", "$[0, ~, 'a']", "$..[*, 0]", "$[*][*]", "$..*", "$.*.*",
    "$[?@.a, ?@[0]]", "$[::2, ::-1]", "$ | $", "$.* | $..*", "$.* & $[0, 1]", "$..* & $.* & $[1:]", "$[0] | $[1] & $.*", "^ | a", "^.* & $",
    "$..[?@.a][0]", "$[?@.a].a", "$..a..*", "$[-1:]", "$[1, 0, -1]", "$[?@[?@.a]]", "$.a[?@ == $.b]", "~", "*", "..*", "..a", "",
)


CONTEXTS = (None, {}, {"x": 0}, {"x": None}, {"x": {"a": 0, "": []}}, {"x": [0, {"a": 1}], "a": 0, "names": []}, {"a": "s", "nope": False})
CTXS = ("_", "_.x", "!_.x", "_.nope == @.nope", "_.x == @.a", "@.a == _.x.a", "_.a", "_.a == @", "@ in _.x", "_.x contains @.a", "_[?@ == 0]", "_.x[?@.a]",
        "@[?_.x.a == @]", "count(_.*) == 1", "count(_..*) > @", "_.x == undefined", "_['x', 'a']", "_..a", "value(_.*) == @", "# == _.x", "_.* || @.a", "length(_.x) == 0")


def contexts(g, lib):
    """The filter context: absent, empty, and holding values of every kind."""
    kw = {}
    ctx = g.choice("ctx", CONTEXTS)
    if ctx is not None or g.flag("none"):
        kw = {"filter_context": ctx}
    doc = g.json("doc", doc_spec(g, 2, 1, keys=("a", "x"), kinds=("int", "str", "dict"), ints=(0, 1), strs=("s",), root=("list", "dict")))
    compare(g, lib, g.choice("seg", ("$[?", "$..[?", "^[?")) + g.choice("e", CTXS) + "]", doc, kw, (g.choice("how", HOWS[1:3]),))


def wider(g, lib):
    """Long arrays and objects, deep documents."""
    doc = wide(g, most=11) if g.flag("wide") else tall(g, most=8)
    if g.flag("wrapped"):
        doc = wrap(doc)
    t, _ = digits(g, "d", 2)
    text = g.choice("q", ("$[%]", "$[%:]", "$[:%:-1]", "$..[%]", "$..*", "$.*", "$..a", "$..[-1]", "$[?@ > %]", "$..[?@[0] == %]", "$.~", "$[::%]")).replace("%", t)
    compare(g, lib, text, doc, {}, (g.choice("how", HOWS[1:3]),))


def huge(g, lib):
    """Documents of hundreds of members or scores of levels."""
    doc, segs = vast(g, sizes=(130,), depths=(70,))
    compare(g, lib, S.query(("$", [segs[g.count("s", 0, len(segs) - 1)]])), doc, {}, (g.choice("how", HOWS[1:3]),))


def texts(g, lib):
    """Strings that are JSON texts are strings, in the document and the context."""
    doc = textual(g)
    v = g.choice("v", TEXTS[:3])
    text = g.choice("q", ("$..*", "$..a", "$.*[0]", "$..[?@.a]", "$..[?@[0]]", "$[?@ == $.c]", "$[?count(@..*) == 1]", "$..~", "$[?_.x.a]", "$[?_.x[0]]", "$[?@ == _.x]", "$[?'a' in @]", "^[?@.a]",
                          "$[?value(@..a) == 1]", "$[?_.x in @]", "$[?length(@) == 2]"))
    compare(g, lib, text, doc, {"filter_context": {"x": v}}, (g.choice("how", HOWS[1:3]),))


def shared(g, lib):
    """Documents in which a container, or an equal one, occurs more than once."""
    doc = aliased(g)
    if g.flag("wrapped"):
        doc = wrap(doc)
    text = g.choice("q", ("$..*", "$..a", "$[*][0]", "$..[?@.a]", "$..[-1, 'a']", "$[?@ == $[0]]", "$[::-1].*", "$.* & $..a", "$.a.~ | $..[?# == 'a']"))
    compare(g, lib, text, doc, {}, (g.choice("how", HOWS[1:3]),))


LAST = (".*", "[-1]", "[1:]", "[::-1]", "['', 'a']", "..*", "..[-1]", "..a", "[?@.a]", "[?@ == 0]", "[?# == 'a']", "[?@ in $..a]", ".~", "..~", "[::2, 'b', 0]",
        "[~, *]", "..[?@[0]]", "[?count(@..*) > 1]", "[?@ == _.x]", "..[:1, ~]")


def buried(g, lib):
    """Every kind of selector at every depth down to six, one more after it."""
    doc, segs = deep(g)
    text = S.query(("$", segs)) + g.choice("seg", LAST)
    form = g.choice("form", ("wrapped", "more", "plain"))
    if form == "wrapped":
        doc = wrap(doc)
    elif form == "more":
        text = text + g.choice("seg2", (".*", "[::-1]"))
    compare(g, lib, text, doc, {"filter_context": {"x": 0}}, (HOWS[1 if form == "more" else 3],))


def chained(g, lib):
    """Compound queries of up to four parts, long ones included."""
    n = g.count("n", 2, 3)
    parts = ("$.a", "$.*", "$..a")
    doc = g.choice("doc", ({"a": {"a": 1}, "b": {"a": 1}}, [{"a": 1}, {"a": 1}, 1], {"a": [1], "b": 1}))
    text = g.choice("p", parts)
    for i in range(n):
        o, t = g.choice("o%d" % i, ("|", "&")), g.choice("p%d" % i, parts)
        text = text + " " + o + " " + t
    compare(g, lib, text, doc, {}, (g.choice("how", HOWS[1:3]),))


def entries(g, lib):
    """Every entry point with a filter context: simple and compound queries,
    documents as values, texts and files."""
    text = g.choice("q", ("$[?%]", "$[?%] | $.a", "$.* | $[?%]", "$.* & $..[?%]", "$[?%] & $.*", "$.a | $.* & $[?%]", "^[?%] | $..[?%]"))
    text = text.replace("%", g.choice("e", ("_.x == @", "@ in _.l", "_.nope", "# == _.k", "!_.x")))
    kw = g.choice("kw", ({}, {"filter_context": {"x": 1, "l": [2, 1], "k": "a"}}, {"filter_context": {"x": 0, "k": 0}}, {"filter_context": None}))
    doc = g.choice("doc", ({"a": 1, "b": [1, 2]}, [1, [0, 1]]))
    form = g.choice("form", ("value", "text", "file"))
    make = {"value": lambda: doc, "text": lambda: g.json_text(doc), "file": lambda: g.json_file(doc)}[form]
    want = attempt(sync, lib, text, make(), kw)
    g.trace([text, want[0]])
    for how in HOWS:
        got = attempt(drive, collect(lib, how, text, make(), kw))
        if form == "value" or want[0] == "err" or got[0] == "err":
            against(g, how, want, got)
            continue
        g.require(len(got[1]) == len(want[1]), how + "_async: number of matches")
        for (m, v), w in zip(got[1], want[1]):
            g.require(g.eq(v, w.obj), how + "_async: another value")


def odd(spec):
    def fn(g, lib):
        """Whole queries: extensions, compounds, fake root, bare names."""
        text = g.choice("q", ODD)
        compare(g, lib, text, g.json("doc", spec(g)), {}, (g.choice("how", HOWS),))

    return fn


def refused(g, lib):
    """Queries refused when compiled are refused by both."""
    text = g.choice("q", ("$[", "$[?@.a", "$[?nosuch(@)]", "$.a |", "$[?count(1)]", "$[9007199254740993]", "$[?1]", "$[?@ == /(/]", "$[?@.* == 1]"))
    for how in HOWS:
        want = attempt(sync, lib, text, {}, {})
        g.trace([text, name(want[1])])
        against(g, how, want, attempt(drive, collect(lib, how, text, {}, {})))


class Fussy:
    """A filter function that refuses some arguments."""

    def __call__(self, v):
        if isinstance(v, str):
            raise self.error("no strings, please")
        if isinstance(v, dict):
            raise KeyError("a")
        return isinstance(v, list)


def failing(g, lib):
    """Functions that fail while a query is evaluated fail both."""
    env = lib.JSONPathEnvironment()
    f = Fussy()
    f.error = lib.JSONPathTypeError
    env.function_extensions["fussy"] = f
    e = g.choice("e", ("fussy(@)", "!fussy(@.a)", "@.a || fussy(@)", "@[?fussy(@)]", "fussy(@) == true", "fussy($[0])"))
    doc = g.json("doc", doc_spec(g, 2, 2, keys=("a",), kinds=("int", "str", "list", "dict"), strs=("s",), ints=(0, 0), cwidth=1,
                                 root=("list", "dict")))
    compare(g, env, g.choice("seg", ("$[?", "$..[?")) + e + "]", doc, {}, ("findall", "finditer"))


def getters(k, spec):
    def fn(g, lib):
        """Asynchronous item getters that return the same items."""
        doc = wrap(g.json("doc", spec(g)))
        if g.flag("odd"):
            text = g.choice("q", ODD)
        else:
            text = S.query(("$", segments(g, "s", k, ("a",), 1, kinds=ALLK, filters=FILTERS, idx=(0, -1),
                                          slices=(("slice", None, None, -1), ("slice", 0, 1, None)))))
        compare(g, lib, text, doc, {}, (g.choice("how", HOWS),))

    return fn


PAIRS = ("$[*].a", "$..a", "$[?@.a == $[0].a]", "$[?@ == $[1]]", "$[::-1]", "$['a', 0]", "$[0].a | $[1]", "$[?_.x == @.a]")


def concurrent(g, lib):
    """Evaluations awaited together on one loop, resumed in any order, of one
    compiled query or of two."""
    a = g.choice("qa", PAIRS)
    b = g.choice("qb", PAIRS[:4])
    shared = g.flag("shared")
    docs = [wrap([{"a": 0}, {"a": 1}]), wrap([{"a": g.int("v", 0, 1)}, g.choice("w", (1, [0], {"a": 0}))])]
    kws = [{"filter_context": {"x": 0}}, {"filter_context": {"x": 1}}]
    texts = [a, a if shared else b]
    ps = [lib.compile(t) for t in texts]
    if shared:
        ps[1] = ps[0]

    async def one(i):
        return [(m, m.obj) async for m in await ps[i].finditer_async(docs[i], **kws[i])]

    out = interleave(g, [one(0), one(1)])
    for i in (0, 1):
        against(g, "finditer", attempt(sync, lib, texts[i], docs[i], kws[i]), out[i])
    g.trace([texts, [len(o[1]) if o[0] == "ok" else name(o[1]) for o in out]])


def forms(g, lib):
    """Documents as JSON text or readable files."""
    doc = g.json("doc", doc_spec(g, 1, 2, keys=("a", "b"), kinds=("null", "int", "str"), root=("list", "dict"), strs=("s",)))
    text = g.choice("q", ("$.*", "$..*", "$[0] | $.a", "$.* & $[0]", "^[*]"))
    form = g.json_text if g.flag("text") else g.json_file
    want = attempt(sync, lib, text, form(doc), {})
    for how in HOWS:
        got = attempt(drive, collect(lib, how, text, form(doc), {}))
        if want[0] == "err" or got[0] == "err":
            against(g, how, want, got)
            continue
        g.require(len(got[1]) == len(want[1]), how + "_async of JSON text: number of matches")
        for (m, v), w in zip(got[1], want[1]):
            g.require(g.eq(v, w.obj), how + "_async of JSON text: another value")
    g.trace([text, want[0]])


S2 = lambda g: doc_spec(g, 2, 2, keys=("a",), kinds=("int", "str", "list", "dict"), ints=(0, 0), strs=("s",), cwidth=1,
                        root=("list", "dict", "int"))
SF = lambda g: doc_spec(g, 2, 1, keys=("a", "b"), kinds=("null", "int", "str", "list", "dict"), ints=(0, 1), strs=("s",),
                        root=("list", "dict"))
SO = lambda g: doc_spec(g, 2, 2, keys=("a", "b"), kinds=("int", "str", "list", "dict"), ints=(0, 0), strs=("s",), cwidth=1,
                        root=("list", "dict", "null"))
S3 = lambda g: doc_spec(g, 3, 2, keys=("a", "b"), kinds=("null", "true", "int", "str", "list", "dict"), ints=(0, 1), strs=("s", ""),
                        root=("list", "dict", "int"))
SG = lambda g: doc_spec(g, 2, 2, keys=("a",), kinds=("int", "str", "list", "dict"), ints=(0, 0), strs=("s",), cwidth=1, root=("list", "dict"))

SCENARIOS = [
    Scenario("program1", programs(1, 1, S2, kinds=ALLK)),
    Scenario("program-lists", programs(1, 2, S3, kinds=ALLK), tier="thorough"),
    Scenario("program2", programs(2, 1, S2, ("finditer",), kinds=ALLK, idx=(0, -1), slices=(("slice", None, None, -1),))),
    Scenario("program3", programs(2, 2, S3, ("findall", "finditer"), kinds=ALLK), tier="thorough"),
    Scenario("filters", filters(EXPRS, SF)),
    Scenario("filters3", filters(EXPRS, S3), tier="thorough"),
    Scenario("contexts", contexts),
    Scenario("wide", wider),
    Scenario("huge", huge),
    Scenario("chained", chained),
    Scenario("texts", texts),
    Scenario("entries", entries),
    Scenario("shared", shared),
    Scenario("buried", buried),
    Scenario("odd", odd(SO)),
    Scenario("refused", refused),
    Scenario("failing", failing),
    Scenario("getters", getters(1, SG)),
    Scenario("getters2", getters(2, SG), tier="thorough"),
    Scenario("concurrent", concurrent),
    Scenario("forms", forms),
]
