"""C04: JSON Pointer resolution conforms to RFC 6901."""
from ref import pointer as R
from checks.queries import textual
from checks.util import attempt, name
from se.harness import Scenario


def spec(g, depth, width, klen, **kw):
    return g.Spec(kinds=("null", "true", "int", "list", "dict"), depth=depth, width=width,
                  klen=klen, slen=2, ints=(-2, 2), **kw)


def texts(g, lib):
    """A token applied to a string that is a JSON text is refused."""
    doc = textual(g)
    toks = [g.choice("t%d" % i, ("a", "b", "c", "0", "1", "")) for i in range(g.count("n", 0, 3))]
    compare(g, lib, lambda: lib.JSONPointer("".join(["/" + t for t in toks])), doc, toks)


def long_tokens(g, lib):
    """Array indices of up to thousands of digits are refused."""
    tok = g.choice("d", ("9", "1", "0", "-1")) * g.choice("n", (1, 9, 15, 16, 17, 19, 20, 309, 4300, 4301, 5000))
    toks = ["a", tok] + (["b"] if g.flag("below") else [])
    form = g.choice("form", ("text", "parts", "join"))
    make = {"text": lambda: lib.JSONPointer("/" + "/".join(toks)), "parts": lambda: lib.JSONPointer.from_parts(toks), "join": lambda: lib.JSONPointer("/a").join(*toks[1:])}[form]
    compare(g, lib, make, {"a": [1, {"b": 2}], "b": "99"}, toks)


def compare(g, lib, make, doc, toks):
    """make() builds the pointer; toks is what RFC 6901 says it means."""
    st, want = R.resolve(doc, toks)
    kind, ptr = attempt(make)
    if kind == "err":
        g.trace(name(ptr))
        if st == R.EXT:
            return
        if st == R.OK:
            g.fail("a pointer to an existing node is rejected: " + name(ptr))
        g.require(isinstance(ptr, lib.JSONPointerError), "unexpected " + name(ptr))
        return
    kind, got = attempt(ptr.resolve, doc)
    kind2, ex = attempt(ptr.exists, doc)
    sentinel = [7]
    kind3, dv = attempt(ptr.resolve, doc, default=sentinel)
    kind4, pr = attempt(ptr.resolve_parent, doc)
    kind5, none = attempt(ptr.resolve, doc, default=None)
    g.trace([st, kind, kind2, kind3, kind4])
    # exists() agrees with resolve(), the default replaces exactly the failures
    if kind == "err" and not isinstance(got, lib.JSONPointerResolutionError):
        if st == R.EXT:
            return  # C06 judges error families
        g.fail("resolve raised " + name(got))
    g.require(kind2 == "ok", "exists raised")
    g.require(ex is (kind == "ok"), "exists disagrees with resolve")
    g.require(kind3 == "ok", "resolve with a default raised")
    if kind == "err":
        g.require(dv is sentinel, "default not returned")
        g.require(kind5 == "ok" and none is None, "the default None is not returned")
    elif st != R.EXT:
        g.require(g.same(dv, got), "default changes the value")
    if st == R.EXT:
        return
    if st == R.OK:
        g.require(kind == "ok", "an existing node is not resolved")
        g.require(g.same(got, want), "resolves to another node")
        g.require(kind4 == "ok", "resolve_parent raised")
        g.require(g.same(pr[1], want), "resolve_parent gives another node")
        if toks:
            g.require(g.same(pr[0], R.resolve(doc, toks[:-1])[1]), "resolve_parent gives another parent")
        else:
            g.require(pr[0] is None, "the root has a parent")
    else:
        g.require(kind == "err", "a pointer RFC 6901 cannot evaluate yields a value")
        if kind4 == "err":
            g.require(isinstance(pr, lib.JSONPointerResolutionError), "resolve_parent raised " + name(pr))


DEFAULTS = ([7], None, False, 0, "", {})


def text(n, depth, width, klen):
    def fn(g, lib):
        """Every pointer text of at most n characters against every document of
        the stated shape."""
        ue = g.flag("unicode_escape")
        p = g.str("pointer", 0, n)
        g.assume(R.valid(p))
        if ue:
            g.assume("\\" not in p)
        doc = g.json("doc", spec(g, depth, width, klen))
        compare(g, lib, lambda: lib.JSONPointer(p, unicode_escape=ue), doc, R.tokens(p))

    return fn


def steps(k, slen, depth, width, klen):
    def fn(g, lib):
        """Pointers of k free tokens."""
        toks = [g.str("t%d" % i, 0, slen) for i in range(k)]
        ue = g.flag("unicode_escape")
        if ue:
            for t in toks:
                g.assume("\\" not in t)
        doc = g.json("doc", spec(g, depth, width, klen))
        compare(g, lib, lambda: lib.JSONPointer(R.spell(toks), unicode_escape=ue), doc, toks)

    return fn


def spelled(k, klen, width):
    def fn(g, lib):
        """The spelled location of a node below k free member names / indices."""
        doc = leaf = g.json("leaf", spec(g, 1, 1, 1))
        toks = []
        for i in range(k):
            if g.flag("list%d" % i):
                n = g.count("len%d" % i, 1, width)
                j = g.count("at%d" % i, 0, n - 1)
                xs = [None] * n
                xs[j] = doc
                doc = xs
                toks.insert(0, str(j))
            else:
                key = g.str("key%d" % i, 0, klen)
                other = g.str("other%d" % i, 0, klen)
                g.assume(key != other)
                doc = {other: False, key: doc}
                toks.insert(0, key)
        ue = g.flag("unicode_escape")
        p = R.spell(toks)
        if ue:
            g.assume("\\" not in p)
        compare(g, lib, lambda: lib.JSONPointer(p, unicode_escape=ue), doc, toks)

    return fn


def helper(g, lib):
    """jsonpath.resolve() with a text and with a list of tokens."""
    toks = [g.str("t%d" % i, 0, 2) for i in range(g.count("k", 0, 2))]
    ue = g.flag("unicode_escape")
    if ue:
        for t in toks:
            g.assume("\\" not in t)
    doc = g.json("doc", spec(g, 2, 1, 2))
    st, want = R.resolve(doc, toks)
    if st == R.EXT:
        return
    for form in (R.spell(toks), list(toks)):
        kind, got = attempt(lib.pointer.resolve, form, doc, unicode_escape=ue)
        g.trace(kind)
        for default in DEFAULTS if len(toks) < 2 else (None,):
            kind2, dv = attempt(lib.pointer.resolve, form, doc, default=default, unicode_escape=ue)
            g.require(kind2 == "ok", "resolve() with a default raised")
            g.require(g.same(dv, want if st == R.OK else default), "resolve() with a default gives something else")
        if st == R.OK:
            g.require(kind == "ok", "resolve() failed")
            g.require(g.same(got, want), "resolve() gives another node")
        else:
            g.require(kind == "err", "resolve() yields a value")
            g.require(isinstance(got, lib.JSONPointerResolutionError), "resolve() raised " + name(got))


def indices(g, lib):
    """Tokens of up to four digits, signs and look-alikes against an array."""
    t = g.str("t", 1, 4, g.ranges((43, 57), (32, 32), (95, 95), (0x660, 0x669), (0xFF10, 0xFF19)))
    n = g.count("n", 0, 12)
    doc = [[i] for i in range(n)]
    if g.flag("nested"):
        doc = {"a": doc}
        toks = ["a", t]
    else:
        toks = [t]
    compare(g, lib, lambda: lib.JSONPointer(R.spell(toks), unicode_escape=g.flag("ue")), doc, toks)


def scalar_walk(g, lib):
    """A token applied to a string, number, boolean or null."""
    t = g.str("t", 0, 2)
    u = g.str("u", 0, 2)
    v = g.json("v", g.Spec(kinds=("null", "true", "false", "int", "float", "str"), slen=2))
    doc = {"a": v} if g.flag("dict") else [v]
    toks = ["a" if isinstance(doc, dict) else "0", t]
    if g.flag("two"):
        toks.append(u)
    g.assume("\\" not in R.spell(toks))
    compare(g, lib, lambda: lib.JSONPointer(R.spell(toks)), doc, toks)


def bigname(g, lib):
    """A member whose name is a canonical integer beyond the index limit."""
    d = g.int("d", 9007199254740991, 9007199254741010)
    key = str(d)
    doc = {key: [1]}
    compare(g, lib, lambda: lib.JSONPointer(R.spell([key])), doc, [key])


SCENARIOS = [
    Scenario("texts", texts),
    Scenario("long-tokens", long_tokens),
    Scenario("text4", text(4, 1, 2, 2)),
    Scenario("text5-deep", text(5, 2, 2, 1), tier="thorough"),
    Scenario("text7", text(7, 2, 1, 2), tier="thorough"),
    Scenario("steps1", steps(1, 3, 1, 2, 3)),
    Scenario("steps2", steps(2, 2, 2, 1, 2)),
    Scenario("steps2-wide", steps(2, 2, 2, 2, 2), tier="thorough"),
    Scenario("steps3", steps(3, 2, 3, 1, 2), tier="thorough"),
    Scenario("spelled1", spelled(1, 4, 3)),
    Scenario("spelled2", spelled(2, 2, 2)),
    Scenario("spelled3", spelled(3, 2, 2), tier="thorough"),
    Scenario("helper", helper),
    Scenario("indices", indices),
    Scenario("scalars", scalar_walk),
    Scenario("bigname", bigname),
]
