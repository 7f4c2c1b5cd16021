"""C14: pointer text, tokens and navigation operations agree."""
from ref import pointer as R
from checks import queries as Q
from checks.util import attempt, name
from se.harness import Scenario


def token(g, n, hi):
    return g.str(n, 0, hi, g.minus(g.ALPHABET, "\\"))


def clean(g, n, hi):
    """A token usable as a join() argument: no leading blank."""
    t = token(g, n, hi)
    if t != "":
        g.assume(t[:1].strip() != "")
    return t


def roundtrip(n):
    def fn(g, lib):
        """print(parse(s)) == s for every pointer text of at most n characters."""
        s = g.str("s", 0, n, g.minus(g.ALPHABET, "\\"))
        g.assume(R.valid(s))
        p = lib.JSONPointer(s, unicode_escape=g.flag("ue"))
        g.trace(str(p))
        g.require(str(p) == s, "str(JSONPointer(s)) != s")
        want = R.tokens(s)
        g.require(len(p.parts) == len(want), "number of tokens")
        for a, b in zip(p.parts, want):
            g.require(str(a) == b, "token text differs")

    return fn


BUILDS = ("text", "parts", "div", "join", "parent", "match")


def build(g, lib, toks, how):
    if how == "text":
        return lib.JSONPointer(R.spell(toks))
    if how == "parts":
        return lib.JSONPointer.from_parts(list(toks), unicode_escape=False)
    if how == "parts-esc":
        return lib.JSONPointer.from_parts(list(toks))
    if how == "div":
        p = lib.JSONPointer("")
        for t in toks:
            p = p / R.escape(t)
        return p
    if how == "join":
        return lib.JSONPointer("").join(*[R.escape(t) for t in toks])
    if how == "parent":
        return lib.JSONPointer(R.spell(list(toks) + ["x"])).parent()
    if how == "ints":
        return lib.JSONPointer.from_parts([int(t) if R.canonical(t) else t for t in toks])
    raise AssertionError(how)


def equality(k, n, ways):
    def fn(g, lib):
        """p == q exactly when the token sequences are equal, however built."""
        ka = g.count("ka", 0, k)
        kb = g.count("kb", 0, k)
        a = [clean(g, "a%d" % i, n) for i in range(ka)]
        b = [clean(g, "b%d" % i, n) for i in range(kb)]
        wa = g.choice("wa", ways)
        wb = g.choice("wb", ways)
        p = build(g, lib, a, wa)
        q = build(g, lib, b, wb)
        same = ka == kb and all([x == y for x, y in zip(a, b)])
        g.trace([str(p), str(q), same])
        g.require(str(p) == R.spell(a), "printing " + wa)
        g.require((p == q) == same, "equality of " + wa + " and " + wb)
        g.require((p != q) == (not same), "inequality of " + wa + " and " + wb)
        if same:
            g.require(hash(p) == hash(q), "hash of equal pointers")

    return fn


def one_token(g, lib):
    """The same single token through every pair of constructors."""
    a = clean(g, "a", 2)
    p = build(g, lib, [a], g.choice("wa", ("text", "parts", "parts-esc", "div", "join", "parent", "ints")))
    q = build(g, lib, [a], g.choice("wb", ("text", "ints")))
    g.trace([str(p), str(q)])
    g.require(p == q, "equal tokens, unequal pointers")
    g.require(hash(p) == hash(q), "hash of equal pointers")
    g.require(lib.JSONPointer(str(p)) == p, "parse(print(p)) != p")
    g.require(str(p) == R.spell([a]), "spelling")


def parts_print(k, n):
    def fn(g, lib):
        """from_parts prints the RFC 6901 spelling, which parses to an equal pointer."""
        toks = []
        for i in range(g.count("k", 0, k)):
            if g.flag("int%d" % i):
                toks.append(g.int("i%d" % i, 0, 120))
            else:
                toks.append(token(g, "t%d" % i, n))
        ue = g.flag("ue")
        p = lib.JSONPointer.from_parts(toks, unicode_escape=ue)
        want = R.spell([str(t) for t in toks])
        g.trace(str(p))
        g.require(str(p) == want, "from_parts spelling")
        q = lib.JSONPointer(want, unicode_escape=ue)
        g.require(q == p, "parse(spelling) != from_parts")
        g.require(p == q, "from_parts != parse(spelling)")

    return fn


def join_one(kp, np, nt, with_doc):
    def fn(g, lib):
        """(p / t).parent() == p, relative to p, resolves as p then t."""
        toks = [token(g, "p%d" % i, np) for i in range(g.count("k", 0, kp))]
        t = clean(g, "t", nt)
        p = build(g, lib, toks, g.choice("how", ("text", "parts")))
        e = R.escape(t)
        q = p.join(e) if g.flag("join") else p / e
        g.trace(str(q))
        g.require(str(q) == R.spell(toks + [t]), "joined text")
        g.require(q.parent() == p, "(p / t).parent() != p")
        g.require(q.is_relative_to(p) is True, "p / t is not relative to p")
        g.require(p.is_relative_to(q) is False, "p is relative to p / t")
        g.require(p.is_relative_to(p) is False, "p is relative to p")
        if with_doc:
            doc = g.json("doc", g.Spec(kinds=("null", "int", "list", "dict"), depth=kp + 1, width=1, klen=nt))
            k1, v1 = attempt(q.resolve, doc)
            k0, v0 = attempt(p.resolve, doc)
            g.trace([k0, k1])
            if k0 == "err":
                g.require(k1 == "err", "p / t resolves although p does not")
            else:
                st, want = R.step(v0, t)
                if st == R.OK:
                    g.require(k1 == "ok", "stepping by t works, p / t does not")
                    g.require(g.same(v1, want), "p / t resolves elsewhere")
                elif st == R.FAIL:
                    g.require(k1 == "err", "p / t resolves, stepping by t does not")

    return fn


def replace(g, lib):
    """A joined part that starts with a slash replaces the pointer."""
    base = lib.JSONPointer(R.spell([token(g, "b%d" % i, 1) for i in range(g.count("k", 0, 1))]))
    toks = [token(g, "t%d" % i, 2) for i in range(g.count("n", 1, 2))]
    part = R.spell(toks)
    q = base.join(part) if g.flag("join") else base / part
    g.trace(str(q))
    g.require(str(q) == part, "an absolute part does not replace the pointer")
    g.require(q == lib.JSONPointer(part), "an absolute part does not replace the pointer")


def multi(g, lib):
    """Joining several parts, and parts that hold several tokens."""
    base = [token(g, "b%d" % i, 1) for i in range(g.count("k", 0, 1))]
    t = [clean(g, "t0", 2), clean(g, "t1", 2)]
    p = build(g, lib, base, "text")
    e = [R.escape(x) for x in t]
    mode = g.choice("mode", ("slash", "args", "chain"))
    if mode == "slash":
        g.assume(t[0] != "")
        q = p / (e[0] + "/" + e[1])
    elif mode == "args":
        q = p.join(e[0], e[1])
    else:
        q = p / e[0] / e[1]
    g.trace(str(q))
    g.require(str(q) == R.spell(base + t), "joined text")
    g.require(q == lib.JSONPointer(R.spell(base + t)), "joined pointer")
    g.require(q.parent().parent() == p, "grandparent")


def relative(k, n):
    def fn(g, lib):
        """is_relative_to is the proper-prefix relation on token sequences."""
        a = [token(g, "a%d" % i, n) for i in range(g.count("ka", 0, k))]
        b = [token(g, "b%d" % i, n) for i in range(g.count("kb", 0, k))]
        p = build(g, lib, a, g.choice("wa", ("text", "parts")))
        q = build(g, lib, b, g.choice("wb", ("text", "parts")))
        want = len(b) < len(a) and all([x == y for x, y in zip(a, b)])
        g.trace(want)
        g.require(p.is_relative_to(q) is want, "is_relative_to")

    return fn


def root(g, lib):
    """The parent of the root pointer is the root pointer; parents drop one token."""
    toks = [token(g, "t%d" % i, 1) for i in range(g.count("k", 0, 3))]
    p = build(g, lib, toks, g.choice("how", ("text", "parts")))
    q = p.parent()
    g.trace(str(q))
    g.require(str(q) == R.spell(toks[:-1]), "parent text")
    g.require(q == lib.JSONPointer(R.spell(toks[:-1])), "parent")
    if not toks:
        g.require(q == p, "the root's parent is not the root")


def long_tokens(g, nm, alike):
    """Up to twelve tokens: fixed ones, and one free token somewhere."""
    n = g.choice(nm + "n", (0, 1, 2, 3, 9, 10, 11, 12))
    at = g.choice(nm + "at", (0, n - 1))
    return [token(g, nm + "t", 2) if i == at else alike[i % len(alike)] for i in range(n)]


def long_lists(g, lib):
    """Parents, prefixes, equality and printing of long pointers."""
    alike = g.choice("alike", (("a",), ("0", "10"), ("", "~", "/"), ("aa", "a", "aaa")))
    toks = long_tokens(g, "a", alike)
    k = g.choice("cut", (0, 1, 2, 10, 12))
    swap = g.flag("swap")
    rest = list(toks[:k])
    if swap and rest:
        rest[-1] = g.choice("other", ("b", "00", "1"))
    p = build(g, lib, toks, g.choice("wa", ("text", "parts")))
    q = build(g, lib, rest, g.choice("wb", ("text", "parts")))
    same = len(rest) == len(toks) and all([x == y for x, y in zip(toks, rest)])
    under = len(rest) < len(toks) and all([x == y for x, y in zip(toks, rest)])
    g.trace([same, under])
    g.require(str(p) == R.spell(toks), "printing")
    g.require((p == q) == same, "equality")
    g.require(p.is_relative_to(q) is under, "is_relative_to")
    for i in range(len(toks) - len(rest)):
        p = p.parent()
    if under:
        g.require(p == q, "climbing from " + str(len(toks)) + " to " + str(len(rest)) + " tokens")
        g.require(str(p) == R.spell(rest), "the text of an ancestor")


def many_parts(g, lib):
    """join() with up to four parts, each relative or absolute, one token or
    two."""
    base = ["b"] if g.flag("base") else []
    p = build(g, lib, base, g.choice("how", ("text", "parts")))
    want = list(base)
    parts = []
    free = g.choice("free", (0, 1, 2, 3))
    for i in range(g.count("n", 0, 4)):
        t = clean(g, "t", 1) if i == free else g.choice("fixed", ("a", "0", "10"))
        kind = g.choice("kind%d" % i, ("one", "two", "abs"))
        if kind == "one":
            parts.append(R.escape(t))
            want = want + [t]
        elif kind == "two":
            parts.append("x/" + R.escape(t))
            want = want + ["x", t]
        else:
            parts.append("/" + R.escape(t))
            want = [t]
    if g.flag("slash"):
        q = p
        for e in parts:
            q = q / e
    else:
        q = p.join(*parts)
    g.trace(str(q))
    g.require(str(q) == R.spell(want), "joined text")
    g.require(q == lib.JSONPointer(R.spell(want)), "joined pointer")
    g.require(str(p) == R.spell(base), "joining changed the base")


def siblings(g, lib):
    """Pointers derived from one base stay what they were when others are
    derived from it."""
    toks = [clean(g, "p%d" % i, 1) for i in range(g.count("k", 0, 2))]
    t = clean(g, "t", 1)
    u = clean(g, "u", 1)
    p = build(g, lib, toks, g.choice("how", ("text", "parts", "join", "div")))
    a = p / R.escape(t)
    text = str(a)
    b = p.join(R.escape(u))
    c = b.parent() / R.escape(t)
    g.trace([str(a), str(b)])
    g.require(str(a) == text, "an earlier pointer changed")
    g.require(str(a) == R.spell(toks + [t]), "the first of two joins")
    g.require(str(b) == R.spell(toks + [u]), "the second of two joins")
    g.require(str(p) == R.spell(toks), "the base changed")
    g.require((a == b) == (t == u), "equality of siblings")
    g.require(c == a, "parent, then the same token again")
    g.require(hash(c) == hash(a), "hash of equal pointers")


def wide_resolve(g, lib):
    """p / t resolves as p then t in long arrays and objects."""
    doc = Q.wide(g)
    if g.flag("deep"):
        doc = {"x": doc}
        toks = ["x"]
    else:
        toks = []
    t = str(g.int("t", 0, 30)) if g.flag("int") else g.str("s", 1, 2, g.ranges((43, 57), (0x660, 0x669)))
    g.assume("/" not in t)
    p = build(g, lib, toks, g.choice("how", ("text", "parts")))
    st, want = R.step(doc["x"] if toks else doc, t)
    if st == R.EXT:
        return
    kind, got = attempt((p / t).resolve, doc)
    g.trace([st, kind])
    g.require((kind == "ok") == (st == R.OK), "p / t and stepping by t disagree")
    if kind == "ok":
        g.require(g.same(got, want), "p / t resolves elsewhere")


SCENARIOS = [
    Scenario("roundtrip5", roundtrip(5)),
    Scenario("roundtrip7", roundtrip(7), tier="thorough"),
    Scenario("equality1", equality(1, 2, ("text", "parts", "ints"))),
    Scenario("equality2", equality(2, 1, ("text", "parts"))),
    Scenario("equality-ways", equality(2, 2, ("text", "parts", "parts-esc", "div", "join", "parent", "ints")),
             tier="thorough"),
    Scenario("one-token", one_token),
    Scenario("parts-print", parts_print(2, 2)),
    Scenario("parts-print3", parts_print(3, 3), tier="thorough"),
    Scenario("join", join_one(1, 2, 3, False)),
    Scenario("join-resolve", join_one(1, 1, 2, True)),
    Scenario("join-resolve2", join_one(2, 2, 2, True), tier="thorough"),
    Scenario("replace", replace),
    Scenario("multi", multi),
    Scenario("relative", relative(2, 1)),
    Scenario("relative3", relative(3, 2), tier="thorough"),
    Scenario("root", root),
    Scenario("long-lists", long_lists),
    Scenario("many-parts", many_parts),
    Scenario("siblings", siblings),
    Scenario("wide-resolve", wide_resolve),
]
