"""C11: all query entry points agree with one another on every input."""
import io
import json

from checks.queries import aliased, doc_spec, segments, tall, vast, wide
from checks.util import attempt, name
from ref import query as Q
from ref import spell as S
from se.harness import Scenario


def compound(want, parts, eq):
    """Left to right; parts: [(op, nodelist)]."""
    for op, ns in parts:
        if op == "|":
            want = want + ns
        else:
            out = []
            for l, v in want:
                for _, w in ns:
                    if eq(v, w):
                        out.append((l, v))
                        break
            want = out
    return want


ENTRIES = ("findall", "finditer", "query", "match", "compiled.findall", "compiled.finditer", "compiled.query",
           "compiled.match", "env.findall", "env.finditer", "env.query", "env.match")


def run(lib, entry, text, doc, extra):
    """-> list of (path or None, value)"""
    owner, _, meth = entry.rpartition(".")
    if owner == "compiled":
        f = getattr(lib.compile(text), meth)
        args = (doc,)
    elif owner == "env":
        f = getattr(lib.JSONPathEnvironment(), meth)
        args = (text, doc)
    else:
        f = getattr(lib, meth)
        args = (text, doc)
    kw = {} if extra is None else {"filter_context": extra}
    if meth == "findall":
        return [(None, v) for v in f(*args, **kw)]
    if meth == "finditer":
        return [(m.path, m.obj) for m in f(*args, **kw)]
    if meth == "query":
        return [(m.path, m.obj) for m in f(*args, **kw)]
    m = f(*args, **kw)
    return [] if m is None else [(m.path, m.obj)]


def agree(g, lib, text, want, form, same, extra=None, entries=ENTRIES):
    """Every entry point against the expected nodelist; form() gives the document."""
    for e in entries:
        kind, got = attempt(run, lib, e, text, form(), extra)
        if kind == "err":
            g.fail(e + " fails: " + name(got))
        w = want[:1] if e.endswith("match") else want
        g.require(len(got) == len(w), e + ": number of matches")
        for (path, v), (loc, x) in zip(got, w):
            g.require(same(v, x), e + ": another value")
            if path is not None:
                g.require(path == Q.normalized(loc), e + ": another path")
    g.trace([text, len(want)])


def views(g, lib, text, want, doc):
    g.require(len(list(lib.query(text, doc).values())) == len(want), "query().values(): number")
    for v, (loc, x) in zip(lib.query(text, doc).values(), want):
        g.require(g.same(v, x), "query().values(): another value")


def simple(k, w, spec, **kw):
    def fn(g, lib):
        """Simple queries through every entry point."""
        query = ("$", segments(g, "s", k, ("a",), w, filters=FILTERS, **kw))
        doc = g.json("doc", spec(g))
        text = S.query(query)
        want = Q.run(query, doc, g.eq)
        agree(g, lib, text, want, lambda: doc, g.same)
        views(g, lib, text, want, doc)

    return fn


W = ("child", [("wild",)])
OPERANDS = (
    ("$", [W]),
    ("$", [("child", [("name", "a")])]),
    ("$", [("desc", [("wild",)])]),
    ("$", [("child", [("slice", 1, None, None), ("index", 0)])]),
    ("$", []),
    ("$", [("child", [("filter", ("q", ("@", [])))])]),
    ("^", [W]),
    ("$", [("desc", [("name", "a")])]),
)


def operands(n, pick, spec, ops=("|", "&")):
    def fn(g, lib):
        """n operands joined by | and &, left to right, through every entry point."""
        doc = g.json("doc", spec(g))
        qs = [g.choice("q%d" % i, pick) for i in range(n)]
        os = [g.choice("o%d" % i, ops) for i in range(n - 1)]
        sp = g.choice("sp", (" ", ""))
        text = S.query(qs[0])
        parts = []
        for o, q in zip(os, qs[1:]):
            text = text + sp + o + sp + S.query(q)
            parts.append((o, fake(q, doc, g)))
        want = compound(fake(qs[0], doc, g), parts, g.eq)
        agree(g, lib, text, want, lambda: doc, g.same)

    return fn


def fake(q, doc, g):
    """Locations below the fake root start from the document itself."""
    ns = Q.run(q, doc, g.eq)
    return ns


def longer(n, docs):
    def fn(g, lib):
        """Compound queries of more parts: left to right, text or methods."""
        doc = g.choice("doc", docs)
        k = g.count("k", 3, n)
        pick = (OPERANDS[1], OPERANDS[0], OPERANDS[4] if n < 5 else OPERANDS[3], ("$", [("child", [("index", -1), ("name", "b")])]))
        qs = [g.choice("q%d" % i, pick[:3] if i else pick) for i in range(k + 1)]
        os = [g.choice("o%d" % i, ("|", "&")) for i in range(k)]
        text = S.query(qs[0])
        p = lib.CompoundJSONPath(env=lib.DEFAULT_ENV, path=lib.compile(text))
        parts = []
        for o, q in zip(os, qs[1:]):
            t = S.query(q)
            text = text + " " + o + " " + t
            parts.append((o, Q.run(q, doc, g.eq)))
            p = p.union(lib.compile(t)) if o == "|" else p.intersection(lib.compile(t))
        want = compound(Q.run(qs[0], doc, g.eq), parts, g.eq)
        g.trace([text, len(want)])
        for how, got in (("findall", lib.findall(text, doc)), ("finditer", [m.obj for m in lib.finditer(text, doc)]), ("built", p.findall(doc)),
                         ("query", list(lib.query(text, doc).values()))):
            g.require(len(got) == len(want), how + " of a long compound: number of matches")
            for v, (l, x) in zip(got, want):
                g.require(g.same(v, x), how + " of a long compound: another value")
        m = lib.match(text, doc)
        g.require((m is None) == (len(want) == 0), "match of a long compound")

    return fn


def wider(g, lib):
    """Long arrays and objects, deep documents, as values, text or files."""
    doc = wide(g) if g.flag("wide") else tall(g, most=8)
    q = g.choice("q", (OPERANDS[0], OPERANDS[2], ("$", [("child", [("slice", None, None, -1)])]), ("$", [("desc", [("index", -1)])]),
                       ("$", [("child", [("filter", ("cmp", ">", ("q", ("@", [])), ("lit", 5)))])])))
    form = g.choice("form", ("value", "text", "file"))
    want = Q.run(q, doc, g.eq)
    make = (lambda: doc) if form == "value" else (lambda: g.json_text(doc)) if form == "text" else (lambda: g.json_file(doc))
    agree(g, lib, S.query(q), want, make, g.same if form == "value" else g.eq, entries=ENTRIES[:8])


def huge(g, lib):
    """Documents of hundreds of members or scores of levels, through every
    entry point."""
    doc, segs = vast(g, sizes=(130,), depths=(70,))
    q = ("$", [segs[g.count("s", 0, len(segs) - 1)]])
    agree(g, lib, S.query(q), Q.run(q, doc, g.eq), lambda: doc, g.same, entries=ENTRIES[:8])


def shared(g, lib):
    """Compound queries over documents in which a container, or an equal one,
    occurs more than once."""
    doc = aliased(g)
    names = [g.choice("q%d" % i, OPERANDS[:4]) for i in range(2)]
    op = g.choice("op", ("|", "&"))
    want = compound(Q.run(names[0], doc, g.eq), [(op, Q.run(names[1], doc, g.eq))], g.eq)
    agree(g, lib, S.query(names[0]) + " " + op + " " + S.query(names[1]), want, lambda: doc, g.same, entries=("findall", "finditer", "compiled.finditer", "env.query"))


def builders(g, lib):
    """Compound queries built with union() and intersection()."""
    doc = g.json("doc", doc_spec(g, 2, 2, keys=("a",), kinds=("true", "int", "list"), ints=(0, 1), cwidth=1))
    names = [g.choice("q%d" % i, OPERANDS[:4]) for i in range(3)]
    os = [g.choice("o%d" % i, ("|", "&")) for i in range(2)]
    compiled = {}

    def comp(q):
        t = S.query(q)
        if not share:
            return lib.compile(t)
        if t not in compiled:
            compiled[t] = lib.compile(t)
        return compiled[t]

    share = g.flag("share")
    p = lib.CompoundJSONPath(env=lib.DEFAULT_ENV, path=comp(names[0]))
    before, first = p, Q.run(names[0], doc, g.eq)
    text = S.query(names[0])
    parts = []
    for o, q in zip(os, names[1:]):
        p = p.union(comp(q)) if o == "|" else p.intersection(comp(q))
        parts.append((o, Q.run(q, doc, g.eq)))
        text = text + " " + o + " " + S.query(q)
    want = compound(Q.run(names[0], doc, g.eq), parts, g.eq)
    for how, got in (("findall", p.findall(doc)), ("finditer", [m.obj for m in p.finditer(doc)]),
                     ("query", list(p.query(doc).values())), ("text", lib.findall(text, doc))):
        g.require(len(got) == len(want), how + " of a built compound: number of matches")
        for v, (l, x) in zip(got, want):
            g.require(g.same(v, x), how + " of a built compound: another value")
    m = p.match(doc)
    g.require((m is None) == (len(want) == 0), "match of a built compound")
    again = before.findall(doc)
    g.require(len(again) == len(first), "building a compound changes the one it is built from")
    g.trace(len(want))


def forms(spec, queries):
    def fn(g, lib):
        """Documents as JSON text and as readable files."""
        doc = g.json("doc", spec(g))
        qs = g.choice("q", queries)
        text = S.query(qs[0])
        want = Q.run(qs[0], doc, g.eq)
        if len(qs) > 1:
            text = text + " " + qs[1] + " " + S.query(qs[2])
            want = compound(want, [(qs[1], Q.run(qs[2], doc, g.eq))], g.eq)
        form = g.choice("form", ("text", "file"))
        agree(g, lib, text, want, lambda: g.json_text(doc) if form == "text" else g.json_file(doc), g.eq)

    return fn


LAYOUT_DOCS = (
    {"a": 1, "b": [True, None, {"a": ""}]}, [], {}, [[], {}, ""], [1.5, -0.25, 12345678901234567890, 1e300], {"a": "]", "b": "}", "": "{[\"\\"},
    ["\n", "\u00e9\u2028", "\U0001f600", "\u0000", "'"], {"a": {"a": {"a": [0]}}}, [{"a": 1}, {"a": 1}], {"\u00e9": "\ud83d", "a": "//"},
)


def layouts(g, lib):
    """JSON text in every layout, and files of characters and of bytes, read as the parsed value."""
    doc = g.choice("doc", LAYOUT_DOCS)
    indent = g.choice("indent", (None, 0, 2, "\t"))
    t = json.dumps(doc, indent=indent, ensure_ascii=g.flag("ascii"), separators=g.choice("sep", (None, (",", ":"), (" , ", " : "))))
    t = g.choice("lead", ("", " ", "\n", "\r\n\t ")) + t + g.choice("trail", ("", " ", "\n\n"))
    form = g.choice("form", ("str", "chars", "bytes"))
    g.assume(form != "bytes" or "\ud83d" not in t)
    query = ("$", [g.choice("seg", (("child", [("wild",)]), ("desc", [("name", "a"), ("index", 0)])))])

    def make():
        return t if form == "str" else io.StringIO(t) if form == "chars" else io.BytesIO(t.encode("utf-8"))

    agree(g, lib, S.query(query), Q.run(query, json.loads(t), g.eq), make, g.eq, entries=("findall", "compiled.finditer", "env.match", "query"))


def context(g, lib):
    """The filter context reaches every entry point."""
    extra = {"x": g.json("x", g.Spec(kinds=("null", "true", "int", "list"), depth=1, width=1, ints=(0, 1)))}
    doc = [g.json("v", g.Spec(kinds=("null", "true", "int", "list"), depth=1, width=1, ints=(0, 1))), 1]
    q = ("$", [("child", [("filter", ("cmp", "==", ("q", ("@", [])), ("q", ("_", [("child", [("name", "x")])]))))])])
    text = S.query(q)
    want = Q.run(q, doc, g.eq, extra)
    if g.flag("compound"):
        text = text + " | $[0]"
        want = want + [((0,), doc[0])]
    agree(g, lib, text, want, lambda: doc, g.same, extra)


def errors(g, lib):
    """Entry points refuse together."""
    text = g.choice("q", ("$[", "$.a |", "$[?@.a", "$[?nosuch(@)]", "$[9007199254740993]", "$.a & ", "$[?count(@) ]", "]", "$['a"))
    doc = g.choice("doc", ([], {"a": 1}))
    for e in ENTRIES:
        kind, got = attempt(run, lib, e, text, doc, None)
        g.require(kind == "err", e + " accepts a malformed query")
        g.require(isinstance(got, lib.JSONPathError), e + " fails with " + name(got))


FILTERS = (("q", ("@", [("child", [("name", "a")])])), ("not", ("q", ("@", [("child", [("index", 0)])]))))
ALLK = ("name", "index", "slice", "wild", "filter")
S2 = lambda g: doc_spec(g, 2, 2, keys=("a",), kinds=("int", "list", "dict"), ints=(0, 0), cwidth=1, root=("list", "dict", "int"))
SV = lambda g: doc_spec(g, 2, 2, keys=("a",), kinds=("true", "int", "list"), ints=(0, 1), cwidth=1, root=("list", "dict"))
SF = lambda g: doc_spec(g, 2, 2, kinds=("null", "true", "int", "str", "list", "dict"), ints=(0, 1), cwidth=1, root=("list", "dict"),
                        keys=("a", "b"), strs=("", "[x]"))
SC = lambda g: doc_spec(g, 1, 3, kinds=("true", "int"), ints=(0, 1), root=("list",))
QF = ((OPERANDS[0],), (OPERANDS[2],), (OPERANDS[1], "|", OPERANDS[0]), (OPERANDS[0], "&", OPERANDS[2]))

SCENARIOS = [
    Scenario("simple", simple(1, 1, S2, kinds=ALLK)),
    Scenario("simple2", simple(2, 2, S2, kinds=ALLK), tier="thorough"),
    Scenario("two", operands(2, OPERANDS, SV)),
    Scenario("three", operands(3, (OPERANDS[0], OPERANDS[3], OPERANDS[5], ("$", [("child", [("index", 1)])])), SC)),
    Scenario("four", operands(4, OPERANDS[:4], SV), tier="thorough"),
    Scenario("long", longer(4, ({"a": 1, "b": 2}, [[1], 2]))),
    Scenario("long6", longer(6, ({"a": [1], "b": 2}, [1, [2], 3])), tier="thorough"),
    Scenario("wide", wider),
    Scenario("huge", huge),
    Scenario("shared", shared),
    Scenario("builders", builders),
    Scenario("forms", forms(SF, QF)),
    Scenario("layouts", layouts),
    Scenario("context", context),
    Scenario("errors", errors),
]
