"""C17: respelling the environment's identifiers never changes a query's meaning."""
from checks.queries import doc_spec, wide
from checks.util import attempt, name
from checks.c10 import run
from ref import spell as S
from se.harness import Scenario

ATTRS = {"$": "root_token", "^": "fake_root_token", "@": "self_token", "#": "key_token", "_": "filter_context_token", "~": "keys_selector_token", "|": "union_token", "&": "intersection_token"}
IDS = tuple(ATTRS)

SELF = ("q", ("@", []))
KEY = ("key",)
WILD = ("child", [("wild",)])
KEYS = ("child", [("keys",)])


def path(root, *names):
    return ("q", (root, [("child", [("name", n) if isinstance(n, str) else ("index", n)]) for n in names]))


def filt(e, root="$", seg="child"):
    return (root, [(seg, [("filter", e)])])


def rel(*segs):
    return ("q", ("@", list(segs)))


# Compound queries are lists: query, operator, query, ...
PROGRAMS = {
    "$": (("$", [("child", [("name", "a")])]), ("$", []), ("$", [("desc", [("wild",)])]), filt(("cmp", "==", SELF, path("$", "a"))), filt(path("$", "b")), filt(("not", path("$", 0))),
          filt(("cmp", "==", ("fn", "count", [("q", ("$", [WILD]))]), ("lit", 2))), filt(rel(("child", [("filter", ("cmp", "==", path("$", "a"), SELF))])))),
    "^": (("^", [("child", [("index", 0)])]), ("^", [WILD, WILD]), filt(path("^", 0, "a")), filt(path("a"[:0] + "@", "a"), "^"), filt(("cmp", "==", SELF, path("^", 0, "a")))),
    "@": (filt(path("@", "a")), filt(SELF), filt(("cmp", "<", SELF, path("@", "a"))), filt(("not", ("paren", ("cmp", "==", path("@", "a"), ("lit", 1))))), filt(rel(WILD), seg="desc"),
          filt(("cmp", "in", SELF, ("list", ["a", 1]))), filt(("or", ("and", path("@", "a"), path("@", "b")), ("cmp", "==", ("fn", "length", [SELF]), ("lit", 1))))),
    "#": (filt(("cmp", "==", KEY, ("lit", "a"))), filt(("cmp", "!=", ("lit", 0), KEY)), filt(("not", ("paren", ("cmp", "==", KEY, ("lit", "a"))))), filt(("cmp", "==", ("fn", "length", [KEY]), ("lit", 1))),
          filt(("fn", "match", [KEY, ("lit", "a|b")])), filt(rel(("child", [("filter", ("cmp", "==", KEY, SELF))]))), filt(("cmp", "in", KEY, ("list", ["a", 1])))),
    "_": (filt(path("_", "x")), filt(("cmp", "==", SELF, path("_", "x"))), filt(("cmp", "in", SELF, path("_", "l"))), filt(("not", path("_", "zz"))), filt(("cmp", "==", ("fn", "count", [("q", ("_", [("desc", [("wild",)])]))]), ("lit", 3))),
          filt(("q", ("_", [("child", [("name", "l")]), ("child", [("filter", ("cmp", "==", SELF, path("$", "a")))])])))),
    "~": (("$", [KEYS]), ("$", [("desc", [("keys",)])]), ("$", [("child", [("keys",), ("wild",)])]), ("$", [("child", [("name", "a")]), KEYS]), filt(rel(KEYS)), filt(("cmp", "==", ("fn", "count", [rel(KEYS)]), ("lit", 1)))),
    "|": ([("$", [("child", [("name", "a")])]), "|", ("$", [WILD])], [("$", [WILD]), "|", ("^", [WILD]), "|", filt(path("@", "a"))], [filt(("or", path("@", "a"), path("@", "b"))), "|", ("$", [("child", [("name", "b")])])]),
    "&": ([("$", [WILD]), "&", ("$", [("child", [("name", "a")])])], [("$", [WILD]), "&", filt(("cmp", "==", SELF, ("lit", 1)))], [("$", [("desc", [("wild",)])]), "&", ("$", [WILD]), "|", ("^", [WILD])],
          [filt(("and", path("@", "a"), path("@", "b"))), "&", ("$", [("child", [("name", "b")])])]),
}
MIXED = (
    filt(("and", ("cmp", "==", KEY, path("_", "y")), ("cmp", "==", SELF, path("$", "a")))), filt(("or", ("cmp", "==", path("@", "a"), path("_", "x")), path("^", 0, "b"))),
    filt(("cmp", "==", ("fn", "count", [rel(KEYS)]), ("fn", "count", [("q", ("$", [KEYS]))])), "^"), [filt(("cmp", "==", SELF, path("_", "x"))), "|", ("^", [KEYS]), "&", ("$", [WILD])],
    filt(("not", ("paren", ("or", ("cmp", "<", KEY, ("lit", "b")), ("cmp", "==", path("$", "a"), SELF))))), filt(rel(("child", [("filter", ("and", ("cmp", "==", KEY, ("lit", "a")), path("$", "a")))]))),
    [("^", [("desc", [("keys",)])]), "&", ("$", [KEYS])], filt(("q", ("^", [("child", [("filter", ("cmp", "==", path("@", "a"), path("$", "a")))])]))),
)


def spell(q, st):
    if isinstance(q, list):
        return " ".join([st.tok(x) if isinstance(x, str) else S.query(x, st) for x in q])
    return S.query(q, st)


def has_keys(q):
    return "'keys'" in repr(q)


def same(g, r1, r2, keys, label):
    g.require(len(r1) == len(r2), label + "another number of matches")
    for a, b in zip(r1, r2):
        if not keys:
            g.require(len(a.parts) == len(b.parts) and all([g.same(x, y) for x, y in zip(a.parts, b.parts)]), label + "another match")
        g.require(g.same(a.obj, b.obj) if len(a.parts) or not isinstance(a.obj, list) else g.eq(a.obj, b.obj), label + "another value")


def environment(lib, tokens):
    class Env(lib.JSONPathEnvironment):
        pass

    for k, v in tokens.items():
        setattr(Env, ATTRS[k], v)
    return Env()


def agree(g, lib, tokens, q, docs, short):
    st = S.Style(short=short and not (word(tokens.get("~", "~")) and has_keys(q)), tokens=tokens)
    kw = {"filter_context": {"x": 1, "y": "a", "l": [0, 1]}}
    base = lib.JSONPathEnvironment()
    q0 = base.compile(spell(q, S.Style(short=st.short)))
    kind, env = attempt(environment, lib, tokens)
    if kind == "err":
        g.fail("no environment with these spellings: " + name(env))
    text = spell(q, st)
    kind, q1 = attempt(env.compile, text)
    g.trace([tokens, text, kind])
    if kind == "err":
        g.fail("the respelled query is rejected: " + name(q1))
    s1 = g.text(q1)
    kind, q2 = attempt(env.compile, s1)
    g.trace([s1, kind])
    if kind == "err":
        g.fail("the string form is rejected: " + name(q2))
    g.require(g.text(q2) == s1, "the string form is no fixed point")
    for doc in docs:
        want = run(q0, doc, kw)
        kind, got = attempt(run, q1, doc, kw)
        if kind == "err":
            g.fail("the respelled query fails: " + name(got))
        same(g, got, want, has_keys(q), "")
        kind, got = attempt(run, q2, doc, kw)
        if kind == "err":
            g.fail("the recompiled query fails: " + name(got))
        same(g, got, want, has_keys(q), "string form: ")
    # Compiling other queries in other environments changes nothing.
    g.require(g.text(base.compile("$.a[?@.b == 1 && # == _.x] | ^.b")) == "$['a'][?@['b'] == 1 && # == _['x']] | ^['b']", "the default environment changed")


def word(t):
    return S.name_char(t[0]) or S.name_char(t[-1]) or t[-1] == "-"


SPELLINGS = ("$$", "@@", "%", "^^", "root", "r", "$r", "r$", "__", "_k", "§", "é", "{", "}}", "`", ";", "+", "\\", "(*)"[:0] + "#k", "~~", "@$", "_-", "T", "x1", "+.+"[:0] + "++", "$^@", "😀")
DEFAULTS = IDS


def clash(tokens):
    vs = list(tokens.values())
    return len(set(vs)) < len(vs)


DOCS = (
    {"a": 1, "b": {"a": 1, "b": 2}, "c": "a", "d": [1, "a", {"a": 1}]},
    [{"a": 1, "b": 0}, 1, "a", {"b": {"a": "a"}}, [1, 2]],
    {"a": {"a": 1, "b": 2}, "b": 1},
    {},
    [1],
)


def single(g, lib):
    """One identifier respelled, in every program that uses it."""
    i = g.choice("id", IDS)
    tokens = {i: g.choice("spelling", SPELLINGS)}
    g.assume(tokens[i] not in IDS)
    q = g.choice("q", PROGRAMS[i] + MIXED)
    agree(g, lib, tokens, q, DOCS[:3], g.flag("short"))


CHARS = "$@#_~%;+k1-é"


def spelled(n):
    def fn(g, lib):
        """One identifier respelled with any characters of an alphabet."""
        i = g.choice("id", IDS)
        t = ""
        for c in range(g.count("n", 2, n)):
            t = t + g.choice("c%d" % c, CHARS)
        g.assume(not t[0].isdigit() and t[0] != "-")
        # "_" and letters may follow a name, with no blank between
        agree(g, lib, {i: t}, g.choice("q", PROGRAMS[i][:2] + MIXED[:1]), DOCS[:2], True)

    return fn


def documents(spec):
    def fn(g, lib):
        """Any document; all identifiers respelled."""
        tokens = dict(zip(IDS, g.choice("tokens", ALL[:2])))
        q = g.choice("q", MIXED + tuple([q for i in IDS for q in PROGRAMS[i]]))
        agree(g, lib, tokens, q, [g.json("doc", spec(g))], True)

    return fn


PAIRS = (("$", "$$"), ("$$", "$"), ("r", "rr"), ("rr", "r"), ("%", "%%"), ("%%", "%%%"), ("_", "__"), ("@", "@a"), ("a", "ab"), ("%a", "%"), ("x", "x-"), ("é", "é1"), (";", ";;"), ("$", "@"), ("@", "$"), ("#", "~"), ("_", "$"))


def pairs(pairs, ids=IDS):
    def fn(g, lib):
        """Two identifiers respelled, one spelling a prefix of the other, or swapped."""
        i = g.choice("i", ids)
        j = g.choice("j", ids)
        g.assume(i != j)
        a, b = g.choice("spellings", pairs)
        tokens = {k: k for k in IDS}
        # an identifier that had the spelling gets the spare one
        for k in IDS:
            if k in (a, b):
                tokens[k] = "%s%s" % ("<" if False else "{", k)
        tokens[i] = a
        tokens[j] = b
        q = g.choice("q", PROGRAMS[i][:3] + PROGRAMS[j][:3] + MIXED[:3])
        agree(g, lib, tokens, q, DOCS[:3], g.flag("short"))

    return fn


ALL = (
    ("$$", "$$$", "$", "%", "%%", "%%%", "$|", "$&"), ("r", "rr", "rrr", "k", "kk", "kkk", "u", "uu"), ("root", "fake", "self", "key", "ctx", "keys", "union", "inter"),
    ("{", "}", "{{", "}}", "{}", "}{", ";", ";;"), ("a", "aa", "aaa", "ab", "aab", "b", "bb", "ba"), ("_", "__", "___", "_a", "_b", "_-", "_1", "_a_"),
    ("@", "$", "^", "~", "#", "_", "&", "|"), ("é", "éé", "ü", "üé", "é1", "ü-", "ß", "ßß"), ("$r", "$s", "$t", "$u", "$v", "$w", "$x", "$y"), ("r$", "s$", "t$", "u$", "v$", "w$", "x$", "y$"),
    ("+", "++", "+++", "`", "``", "```", "\\", "\\\\"), ("in1", "or1", "not1", "and1", "nil1", "true1", "null1", "missing1"), ("i", "o", "n", "an", "ni", "tru", "nul", "mis"),
    ("T", "F", "N", "K", "C", "L", "U", "I"),
)


def everything(g, lib):
    """All identifiers respelled at once."""
    t = g.choice("tokens", ALL)
    k = g.count("rotate", 0, 7)
    tokens = {i: t[(n + k) % 8] for n, i in enumerate(IDS)}
    q = g.choice("q", MIXED + tuple([PROGRAMS[i][-1] for i in IDS]))
    agree(g, lib, tokens, q, DOCS[:3], g.flag("short"))


ROT = (("$", "^"), ("@", "$"), ("#", "_"), ("~", "#"), ("@", "#"), ("_", "@"), ("|", "&"), ("^", "@"))


def several(g, lib):
    """One text, compiled in environments that give it different meanings, in
    either order; each keeps the meaning it has alone."""
    i, j = g.choice("swapped", ROT)
    tokens = {k: k for k in IDS}
    tokens[i], tokens[j] = j, i
    q = g.choice("q", tuple(PROGRAMS[i][:4] + PROGRAMS[j][:4] + MIXED[:4]))
    text = spell(q, S.Style(tokens=tokens))
    kw = {"filter_context": {"x": 1, "y": "a", "l": [0, 1]}}
    base = lib.JSONPathEnvironment()
    q0 = base.compile(spell(q, S.Style()))
    first = g.choice("first", ("base", "other", "module", "same"))
    if first == "other":
        third = dict(tokens)
        third[i], third[j] = "%", "%%"
        other = environment(lib, third)
        kind, q3 = attempt(other.compile, spell(q, S.Style(tokens=third)))
        attempt(other.compile, text)
    env = environment(lib, tokens)
    if first == "base":
        attempt(base.compile, text)
    elif first == "other":
        if kind == "err":
            g.fail("the query is rejected in a third spelling: " + name(q3))
    elif first == "module":
        attempt(lib.findall, text, DOCS[0])
    else:
        attempt(env.compile, spell(q, S.Style()))
    kind, q1 = attempt(env.compile, text)
    g.trace([text, first, kind])
    if kind == "err":
        g.fail("the respelled query is rejected: " + name(q1))
    # ... and the other way round
    kind, q2 = attempt(lib.JSONPathEnvironment().compile, spell(q, S.Style()))
    for doc in DOCS[:3]:
        want = run(q0, doc, kw)
        same(g, run(q1, doc, kw), want, has_keys(q), "")
        same(g, run(q2, doc, kw), want, has_keys(q), "default environment: ")
        if first == "other":
            same(g, run(q3, doc, kw), want, has_keys(q), "third environment: ")


def respelled_long(g, lib):
    """Long documents, all identifiers respelled."""
    tokens = dict(zip(IDS, g.choice("tokens", ALL[:2])))
    q = g.choice("q", MIXED[:3] + tuple([PROGRAMS[i][0] for i in IDS]) + tuple([PROGRAMS[i][-1] for i in IDS]))
    agree(g, lib, tokens, q, [wide(g)], True)


D1 = lambda g: doc_spec(g, 1, 1, keys=("a",), kinds=("int", "str"), ints=(1, 1), strs=("a",), root=("dict", "list"))
D2 = lambda g: doc_spec(g, 2, 2, keys=("a", "b"), kinds=("int", "str", "dict"), ints=(0, 1), strs=("a",), cwidth=1, root=("dict", "list"))

SCENARIOS = [
    Scenario("single", single),
    Scenario("spelled", spelled(2)),
    Scenario("spelled3", spelled(3), tier="thorough"),
    Scenario("pairs", pairs(PAIRS[:8])),
    Scenario("pairs-all", pairs(PAIRS), tier="thorough"),
    Scenario("all", everything),
    Scenario("several", several),
    Scenario("long", respelled_long),
    Scenario("documents", documents(D1)),
    Scenario("documents2", documents(D2), tier="thorough"),
]
