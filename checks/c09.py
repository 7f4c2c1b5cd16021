"""C09: evaluation is pure: read-only, repeatable, unaffected by caching or
interleaving."""
from checks.c08 import AMap, ASeq, drive, interleave, wrap
from checks.util import attempt, name
from se.harness import Scenario

# -- queries: filter expressions mixing what may be cached with what may not ---

STABLE = ("$.x", "_.x", "$.l[0]", "count($.l.*)", "length($.l)", "value($..x)", "1", "_.l[?@ == $.x]", "count(_.l[?@ > 1])")
NODE = ("@.a", "@", "#", "length(@)", "count(@.*)", "@[?@ == $.x]", "count(@[?@ == _.x])")
OPS = ("==", "<", "!=")
TESTS = (
    # tests of existence
    "$.x", "@.a", "_.x", "$.l[?@ == 1]", "@[?@ == $.x]", "$.l[?@ == _.x]",
    # logical operators over both kinds
    "$.x && @.a", "@.a && $.x == 1", "$.x == 1 || @ == 1", "!$.x", "!($.x == 1)", "!(@ == $.x) && _.x", "($.x == _.x) && (@ == $.x)", "@ == 1 || $.l[0] == @", "# == 0 || $.x == #",
    # both in one function or list
    "count($.l[?@ == 1]) == length(@)", "match('a', $.x) || match(@, 'a')", "search(@, $.x)", "search(@, _.x)", "length(value($..x)) == 1", "@ in $.l", "$.l contains @", "@ in [1, 'a']", "$.x in ['a', 1]",
    "@ =~ /a/", "$.x =~ /a/", "_.x =~ /a|b/ && @ =~ /a/", "typeof(@) == typeof($.x)", "isinstance(@, 'int') || isinstance($.x, 'str')", "is($.x, 'int')", "count($..*) > 4",
    "$.nosuch == @.nosuch", "_.nosuch == $.nosuch", "$.x == undefined", "@ == null || $.x == null", "true == $.x", "$.x == $.x", "1 == 1", "1 == 2", "'a' < 'b' && @", "count(@) == count($.x)",
    # filters in sub-queries
    "$.b[?@ == $.x]", "$.b[?@ == _.x] && @", "@[?$.x == @] || $.l[?$.x == @]", "$.b[?count($.b[?@ == $.x]) == 1]", "$.b[?$.l[?@ == $.x]]", "@[?@[?$.x == @]]", "$.b[?@ == 1, ?@ == $.x]", "_.l[?@ in $.l]", "$..[?# == 'x']",
)
SHAPES = ("$.b[?%s]", "$.b[?%s, ?@ == 1]", "$.b[?%s] | $.l", "$.*[?%s]", "$..[?%s]", "$.b[?%s][?@ == 1]")


def doc(g, nm, atoms=("int", "str"), b=2, inner=("int", "str", "dict"), members=False):
    """A document the queries are about."""
    atom = g.Spec(kinds=atoms, ints=(0, 2), slen=1)
    one = g.Spec(kinds=inner, depth=1, ints=(0, 2), slen=1, width=1, klen=1, child=atom)
    d = {}
    if g.flag(nm + "has"):
        d["x"] = g.json(nm + "x", atom)
    d["l"] = [g.json(nm + "l", atom)]
    d["b"] = [g.json(nm + "b%d" % i, one) for i in range(b)]
    if members:
        d["b"] = {"xyz"[i]: v for i, v in enumerate(d["b"])}
    return d


def context(g, nm):
    atom = g.Spec(kinds=("int", "str"), ints=(0, 2), slen=1)
    return {"x": g.json(nm + "x", atom), "l": [g.json(nm + "l", atom), 1]}


def result(q, d, ctx):
    return [(m.parts, m.obj) for m in q.finditer(d, filter_context=ctx)]


def agree(g, label, a, b):
    """Two outcomes of the same evaluation."""
    if a[0] == "err" or b[0] == "err":
        g.require(a[0] == b[0], label + ": one fails: " + name(a[1] if a[0] == "err" else b[1]))
        g.require(type(a[1]) is type(b[1]), label + ": another error")
        return
    x, y = a[1], b[1]
    g.require(len(x) == len(y), label + ": number of matches")
    for (p, u), (q, v) in zip(x, y):
        g.require(len(p) == len(q), label + ": another location")
        for i, j in zip(p, q):
            g.require(type(i) is type(j) and i == j, label + ": another location")
        if len(p) == 0 and isinstance(u, list) and isinstance(v, list) and len(u) == len(v) == 1:
            g.require(g.eq(u, v), label + ": another value")  # ^: the list is made anew by each evaluation
        else:
            g.require(g.same(u, v), label + ": another value")


def note(g, r):
    g.trace([r[0], len(r[1]) if r[0] == "ok" else name(r[1])])


def caching(queries, **kw):
    def fn(g, lib):
        """Caching on and off, first and later uses, nothing modified."""
        text = g.choice("q", queries)
        d, ctx = doc(g, "d", **kw), context(g, "c")
        d0, ctx0 = g.copy(d), g.copy(ctx)
        kind, on = attempt(lib.JSONPathEnvironment().compile, text)
        if kind == "err":
            g.fail("not a query: " + text)
        off = lib.JSONPathEnvironment(filter_caching=False).compile(text)
        shown = str(on)
        first = attempt(result, on, d, ctx)
        note(g, first)
        agree(g, "caching off", first, attempt(result, off, d, ctx))
        agree(g, "second use", first, attempt(result, on, d, ctx))
        g.require(g.eq(d, d0), "document modified")
        g.require(g.eq(ctx, ctx0), "filter context modified")
        g.require(str(on) == shown, "query modified")
        g.require(on == lib.JSONPathEnvironment().compile(text), "query no longer equals its recompilation")

    return fn


def history(queries, uses=3, **kw):
    def fn(g, lib):
        """One compiled query on a sequence of documents and contexts."""
        text = g.choice("q", queries)
        env = lib.JSONPathEnvironment(filter_caching=g.flag("caching"))
        q = env.compile(text)
        docs = [(doc(g, "d%d" % i, **kw), context(g, "c%d" % i)) for i in range(2)]
        for i in range(uses):
            d, c = docs[g.count("turn%d" % i, 0, 1)]
            r = attempt(result, q, d, c)
            note(g, r)
            agree(g, "use %d" % i, r, attempt(result, lib.compile(text), d, c))

    return fn


def earlier(first, queries, **kw):
    def fn(g, lib):
        """An evaluation after those of other queries, documents and contexts,
        against one of a library that has done nothing before."""
        a, b = g.choice("first", first), g.choice("q", queries)
        env = lib.JSONPathEnvironment(filter_caching=g.flag("caching")) if g.flag("own") else lib
        d, c = doc(g, "d", **kw), context(g, "c")
        d2, c2 = doc(g, "e", **kw), (c if g.flag("samectx") else context(g, "f"))
        attempt(result, env.compile(a), d2, c2)
        attempt(result, env.compile(b), d2, c2)
        r = attempt(result, env.compile(b), d, c)
        note(g, r)
        g.pristine()
        agree(g, "after other evaluations", r, attempt(result, lib.JSONPathEnvironment().compile(b), d, c))

    return fn


ALIKE = (
    # queries easily taken for one another, by text or by the values in them
    ("$.b[?@ == 1]", "$.b[?@ == true]", "$.b[?@ == 1.0]", "$.b[?@ == '1']", "$.b[?@ == 10]"),
    ("$.b[?@ == 0]", "$.b[?@ == false]", "$.b[?@ == -0]", "$.b[?@ == 0.0]", "$.b[?@ == null]", "$.b[?@ == undefined]", "$.b[?@ == '']"),
    ("$.b[?@ =~ /a/]", "$.b[?@ =~ /A/]", "$.b[?@ =~ /A/i]", "$.b[?@ =~ /a/i]", "$.b[?@ =~ /a./]", "$.b[?@ =~ /a./s]"),
    ("$.b[?match(@, 'a')]", "$.b[?match(@, 'A')]", "$.b[?search(@, 'a')]", "$.b[?match(@, 'a.')]", "$.b[?search(@, 'a.')]"),
    ("$.b[0]", "$.b['0']", "$.b[-0:]", "$.b[:0]", "$.b[0:]", "$.b[1]", "$.b[-1]", "$.b[-1:]"),
    ("$.b[::1]", "$.b[::-1]", "$.b[1:]", "$.b[:1]", "$.b[::]", "$.b[:-1]"),
    ("$.x", "$.X", "$['x']", "$[x]", "$..x", "$['x', 0]", "$.b.x", "$.~x"),
    ("$.b", "^.b", "^[0].b", "$[0].b", "$.b.*", "$.b[*]", "$.b.~", "$.b[~]"),
    ("$.b[?@.a]", "$.b[?@.A]", "$.b[?!@.a]", "$.b[?@.x]", "$.b[?@]", "$.b[?@['a']]", "$.b[?@[0]]", "$.b[?@..a]"),
    ("$.b[?$.x == 1]", "$.b[?_.x == 1]", "$.b[?@.x == 1]", "$.b[?$.x != 1]", "$.b[?$.x > 1]", "$.b[?$.x >= 1]"),
    ("$.b[?@ == $.x]", "$.b[?@ == _.x]", "$.b[?@ == @.x]", "$.b[?$.x == @]", "$.b[?@ < $.x]", "$.b[?# == $.x]"),
    ("$.b[?@ in [1]]", "$.b[?@ in [true]]", "$.b[?@ in ['1']]", "$.b[?@ in [1, 0]]", "$.b[?@ in [0, 1]]", "$.b[?[1] contains @]"),
    ("$.b[?@ == 1 && @ == 0 || @ == 'a']", "$.b[?@ == 1 && (@ == 0 || @ == 'a')]", "$.b[?(@ == 1 && @ == 0) || @ == 'a']", "$.b[?@ == 'a' || @ == 1 && @ == 0]"),
    # and after failures
    ("$.b[?@ == 1]", "$.b[?(@ == 1]", "$.b[?@ == 1", "$.b[?count(@) == 1]", "$.b['a", "$.b[?@ == 'a]", "$.b[?nosuch(@)]", "$.b[?@.a && (@.a || !@)]", "$.b[", "$.b[?@ =~ /(/]", "$.b[?match(@, '(')]"),
    ("$.b | $.l", "$.b & $.l", "$.l | $.b", "$.b", "$.b.* | $.l.*", "$.b.* & $.l.*"),
    ("$.b[?count(@.*) == 1]", "$.b[?count(@..*) == 1]", "$.b[?length(@) == 1]", "$.b[?count($.l.*) == 1]", "$.b[?length(value(@.*)) == 1]"),
)


def compiled(env, text, d, ctx):
    q = env.compile(text)
    return (result(q, d, ctx), str(q))


def similar(groups):
    def fn(g, lib):
        """A query used after one much like it, against one of a library that
        has done nothing before."""
        texts = groups[g.count("group", 0, len(groups) - 1)]
        i, j = g.count("first", 0, len(texts) - 1), g.count("q", 0, len(texts) - 1)
        if i == j:
            return
        a, b = texts[i], texts[j]
        env = lib.JSONPathEnvironment() if g.flag("own") else lib
        spec = g.Spec(kinds=("int", "str", "true", "false", "dict"), depth=1, ints=(0, 1), slen=1, width=1, klen=1, child=g.Spec(kinds=("int", "str"), ints=(0, 1), slen=1))
        d = {"x": g.json("x", g.Spec(kinds=("int", "true", "str"), ints=(0, 1), slen=1)), "l": [1, True, "a"], "b": [g.json("b", spec), 1, 0, "a", "A\n", True, "1", {"a": 1}], "X": 2}
        c = {"x": g.int("c", 0, 1)}
        attempt(compiled, env, a, d, c)
        r = attempt(compiled, env, b, d, c)
        if r[0] == "ok":
            g.trace(len(r[1][0]))
        g.pristine()
        w = attempt(compiled, lib.JSONPathEnvironment(), b, d, c)
        g.require(r[0] == w[0], "after a similar query: one fails")
        if r[0] == "ok":
            agree(g, "after a similar query", ("ok", r[1][0]), ("ok", w[1][0]))
            g.require(r[1][1] == w[1][1], "after a similar query: another query")
        else:
            g.require(name(r[1]) == name(w[1]), "after a similar query: another error")

    return fn


def edited(queries, **kw):
    def fn(g, lib):
        """A document or context edited in place between evaluations of one
        compiled query: the later one is about what is there then."""
        text = g.choice("q", queries)
        env = lib.JSONPathEnvironment(filter_caching=g.flag("caching"))
        q = env.compile(text)
        d, c = doc(g, "d", **kw), context(g, "c")
        attempt(result, q, d, c)
        what = g.choice("edit", ("x", "l", "b", "ctx", "ctxl", "gone", "member"))
        v = g.json("v", g.Spec(kinds=("int", "str"), ints=(0, 2), slen=1))
        if what == "x":
            d["x"] = v
        elif what == "l":
            d["l"][0] = v
        elif what == "b":
            d["b"][0] = v
        elif what == "ctx":
            c["x"] = v
        elif what == "ctxl":
            c["l"].append(v)
        elif what == "gone":
            d.pop("x", None)
            d["l"].insert(0, v)
        else:
            d["b"].append({"a": v})
        r = attempt(result, q if g.flag("again") else env.compile(text), d, c)
        note(g, r)
        g.pristine()
        agree(g, "after an edit", r, attempt(result, lib.JSONPathEnvironment().compile(text), d, c))

    return fn


def many(queries, uses=100):
    def fn(g, lib):
        """The hundredth use is the first."""
        q = lib.compile(g.choice("q", queries))
        d, c = doc(g, "d", b=1), context(g, "c")
        first = attempt(result, q, d, c)
        note(g, first)
        other = {"x": 1, "l": [], "b": [1, "a", {}]}
        for i in range(uses):
            attempt(result, q, other, {})
        agree(g, "a later use", first, attempt(result, q, d, c))

    return fn


def iterators(queries, same_doc, turns=4, **kw):
    def fn(g, lib):
        """Lazy iterators from one compiled query, advanced in any order."""
        text = g.choice("q", queries)
        q = lib.JSONPathEnvironment(filter_caching=g.flag("caching")).compile(text)
        ds = [doc(g, "d0", **kw)]
        ds.append(ds[0] if same_doc else doc(g, "d1", **kw))
        cs = [context(g, "c0"), context(g, "c1")]
        its = [iter(q.finditer(d, filter_context=c)) for d, c in zip(ds, cs)]
        out = [[], []]
        end = [None, None]
        n = 0
        while end[0] is None or end[1] is None:
            i = g.flag("turn%d" % n) if n < turns and end[0] is None and end[1] is None else end[0] is not None
            n = n + 1
            i = 1 if i else 0
            try:
                m = next(its[i])
                out[i].append((m.parts, m.obj))
            except StopIteration:
                end[i] = ("ok", out[i])
            except lib.JSONPathError as e:
                end[i] = ("err", e)
        for i in range(2):
            note(g, end[i])
            agree(g, "interleaved", end[i], attempt(result, lib.compile(text), ds[i], cs[i]))

    return fn


def aiterators(queries, turns=4, **kw):
    def fn(g, lib):
        """Async iterators from one compiled query, advanced in any order."""
        text = g.choice("q", queries)
        q = lib.JSONPathEnvironment(filter_caching=g.flag("caching")).compile(text)
        ds = [doc(g, "d0", **kw), doc(g, "d1", **kw)]
        cs = [context(g, "c0"), context(g, "c1")]
        its = [drive(q.finditer_async(d, filter_context=c)).__aiter__() for d, c in zip(ds, cs)]
        out = [[], []]
        end = [None, None]
        n = 0
        while end[0] is None or end[1] is None:
            i = g.flag("turn%d" % n) if n < turns and end[0] is None and end[1] is None else end[0] is not None
            n = n + 1
            i = 1 if i else 0
            try:
                m = drive(its[i].__anext__())
                out[i].append((m.parts, m.obj))
            except StopAsyncIteration:
                end[i] = ("ok", out[i])
            except lib.JSONPathError as e:
                end[i] = ("err", e)
        for i in range(2):
            note(g, end[i])
            agree(g, "interleaved async", end[i], attempt(result, lib.compile(text), ds[i], cs[i]))

    return fn


async def aresult(q, d, ctx, wrapped):
    return [(m.parts, m.obj) async for m in await q.finditer_async(wrap(d) if wrapped else d, filter_context=ctx)]


def tasks(queries, **kw):
    def fn(g, lib):
        """Tasks evaluating one compiled query, switching where they await."""
        text = g.choice("q", queries)
        q = lib.JSONPathEnvironment(filter_caching=g.flag("caching")).compile(text)
        ds = [doc(g, "d0", **kw), doc(g, "d1", **kw)]
        cs = [context(g, "c0"), context(g, "c1")]
        got = interleave(g, [aresult(q, d, c, True) for d, c in zip(ds, cs)])
        for i in range(2):
            note(g, got[i])
            want = attempt(drive, aresult(lib.compile(text), ds[i], cs[i], True))
            alike(g, "tasks", got[i], want)

    return fn


def alike(g, label, a, b):
    """As agree, for documents wrapped anew: values by JSON equality."""
    if a[0] == "err" or b[0] == "err":
        g.require(a[0] == b[0], label + ": one fails: " + name(a[1] if a[0] == "err" else b[1]))
        return
    g.require(len(a[1]) == len(b[1]), label + ": number of matches")
    for (p, u), (q, v) in zip(a[1], b[1]):
        g.require(len(p) == len(q), label + ": another location")
        for i, j in zip(p, q):
            g.require(i == j, label + ": another location")
        u, v = bare(u), bare(v)
        g.require(g.eq(u, v), label + ": another value")


def bare(v):
    if isinstance(v, (AMap, ASeq)):
        v = v.d
    if isinstance(v, dict):
        return {k: bare(x) for k, x in v.items()}
    if isinstance(v, list):
        return [bare(x) for x in v]
    return v


def extended(lib, caching):
    """An environment with functions of the user's, of every kind."""
    env = lib.JSONPathEnvironment(filter_caching=caching)
    F, T = lib.function_extensions.FilterFunction, lib.function_extensions.ExpressionType

    class Zero(F):
        arg_types = []
        return_type = T.VALUE

        def __call__(self):
            return 1

    class First(F):
        arg_types = [T.NODES, T.VALUE]
        return_type = T.VALUE

        def __call__(self, nodes, default):
            return nodes[0].obj if len(nodes) else default

    class Truth(F):
        arg_types = [T.LOGICAL]
        return_type = T.LOGICAL

        def __call__(self, v):
            return bool(v)

    def raw(nodes):
        return len(nodes)

    raw.with_node_lists = True
    env.function_extensions["zero"] = Zero()
    env.function_extensions["first"] = First()
    env.function_extensions["truth"] = Truth()
    env.function_extensions["raw"] = raw
    env.function_extensions["same"] = lambda *args: args[-1]
    return env


CALLS = ("zero() == @", "zero() == $.x", "first($.l.*, 0) == @", "first(@.*, $.x) == 1", "first($.b[?@ == zero()], 'a') == @", "truth($.x == @)", "truth($.x) && truth(@.a)", "raw($.l) == 1", "raw(@.*) == $.x", "same($.x) == @", "same(@, _.x) == $.x", "same(zero(), @) == 1", "_.zero", "$.zero || @.zero", "_.first == @")


def functions(calls, step=1):
    def fn(g, lib):
        """Functions of the user's, with no context or with one."""
        a, b = g.choice("first", calls[::step]), g.choice("q", calls)
        atom = g.Spec(kinds=("int",), ints=(0, 1))
        d = {"x": g.json("x", atom), "l": [1], "b": {"p": g.json("p", g.Spec(kinds=("int", "dict"), depth=1, ints=(0, 1), keys=("a",), width=1, child=atom))}}
        c = {"x": g.int("c", 0, 1)} if g.flag("ctx") else None
        env = extended(lib, g.flag("caching"))
        shape = "$.b[?%s]"
        attempt(result, env.compile(shape % a), d, c)
        q = env.compile(shape % b)
        r = attempt(result, q, d, c)
        note(g, r)
        agree(g, "again", r, attempt(result, q, d, c))
        g.require(c is None or len(c) == 1, "filter context modified")
        g.pristine()
        agree(g, "after another evaluation", r, attempt(result, extended(lib, True).compile(shape % b), d, c))

    return fn


D1 = {"x": 1, "l": [1, "a"], "b": [1, "a", {"a": 1}, [1]]}
D2 = {"x": "a", "l": ["b"], "b": ["a", {"a": "a"}, 2]}
C1 = {"x": 1, "l": [1, 2]}
C2 = {"x": "a", "l": []}


def threads(queries, points, step=1):
    def fn(g, lib):
        """A thread is preempted anywhere in its evaluation by another's."""
        text = g.choice("q", queries)
        q = lib.JSONPathEnvironment(filter_caching=g.flag("caching")).compile(text)
        other = []
        n = g.count("at", 0, points - 1) * step
        with g.preempted(n, lambda: other.append(attempt(result, q, D2, C2))) as p:
            r = attempt(result, q, D1, C1)
        if not p.done:
            return
        fresh = lib.compile(text)
        agree(g, "preempted", r, attempt(result, fresh, D1, C1))
        agree(g, "preempting", other[0], attempt(result, fresh, D2, C2))

    return fn


def compiling(queries, points, step=1):
    def fn(g, lib):
        """A thread is preempted anywhere while compiling by one compiling with the same environment."""
        env = lib.JSONPathEnvironment()
        a, b = g.choice("a", queries), g.choice("b", queries)
        other = []
        n = g.count("at", 0, points - 1) * step
        with g.preempted(n, lambda: other.append(attempt(env.compile, b))) as p:
            r = attempt(env.compile, a)
        if not p.done:
            return
        for label, got, text in (("preempted", r, a), ("preempting", other[0], b)):
            want = attempt(lib.JSONPathEnvironment().compile, text)
            g.require(got[0] == want[0], label + " compilation: one fails")
            if got[0] == "ok":
                g.require(got[1] == want[1], label + " compilation: another query")
                g.require(str(got[1]) == str(want[1]), label + " compilation: another query")
                agree(g, label + " compilation", attempt(result, got[1], D1, C1), attempt(result, want[1], D1, C1))
            else:
                g.require(str(got[1]) == str(want[1]), label + " compilation: another error")

    return fn


def recompile(frames, lo, hi, alpha=None):
    def fn(g, lib):
        """The same text compiled twice, by one environment or two."""
        a, b = g.choice("frame", tuple(frames))
        t = a + g.str("t", lo, hi, alpha(g) if alpha else g.ALPHABET) + b
        env = lib.JSONPathEnvironment()
        x = attempt(env.compile, t)
        y = attempt((env if g.flag("same") else lib.JSONPathEnvironment()).compile, t)
        g.require(x[0] == y[0], "recompilation: one fails")
        if x[0] == "err":
            g.require(type(x[1]) is type(y[1]), "recompilation: another error")
            return
        x, y = x[1], y[1]
        g.require(x == y, "recompilation is not equal")
        g.require(not (x != y), "recompilation is not equal")
        g.require(hash(x) == hash(y), "recompilation has another hash")
        u, v = attempt(result, x, D1, C1), attempt(result, y, D1, C1)
        note(g, u)
        agree(g, "recompilation", u, v)

    return fn


def shaped(shapes, tests):
    return tuple(s % t for s in shapes for t in tests)


def pairs():
    out = []
    for a in STABLE:
        for b in STABLE + NODE:
            for op in OPS:
                if comparable(a) and comparable(b):
                    out.append("%s %s %s" % (a, op, b))
                    if b in NODE:
                        out.append("%s %s %s" % (b, op, a))
    return tuple(out)


def comparable(t):
    return "[?" not in t or t.startswith("count")


PAIRS = pairs()
SOME = ("$.x == @", "@ == _.x", "$.x && @", "count($.l[?@ == $.x]) == 1", "@ in $.l", "search(@, $.x)", "# == $.x || @ == $.l[0]", "$.b[?@ == _.x] && @ == 1", "@[?@ == $.x]", "!(_.x == 1)")
INTS = {"atoms": ("int",), "inner": ("int", "dict")}
MIXED = {"atoms": ("int", "str"), "inner": ("int", "str", "dict")}
B = SHAPES[:1]
SCENARIOS = [
    Scenario("caching-pairs", caching(shaped(B, PAIRS), b=2, atoms=("int",), inner=("int",))),
    Scenario("caching-tests", caching(shaped(B, TESTS), b=1, **MIXED)),
    Scenario("caching-tests-2", caching(shaped(B, TESTS), b=2, atoms=("int",), inner=("int",))),
    Scenario("caching-shapes", caching(shaped(SHAPES[1:], SOME), b=1, **INTS)),
    Scenario("history", history(shaped(B, SOME), uses=2, b=1, **INTS)),
    Scenario("caching-dicts", caching(shaped(B, PAIRS[::11] + SOME), b=1, **INTS)),
    Scenario("earlier", earlier(("$.b[?@ == $.x]", "$.b[?_.x == @.a]", "$..*"), shaped(B, SOME[:5]), b=1, atoms=("int",), inner=("int",))),
    Scenario("edited", edited(shaped(B, SOME), b=1, **INTS)),
    Scenario("similar", similar(ALIKE)),
    Scenario("earlier-all", earlier(shaped(B, SOME) + ("$..*", "$.b[0]"), shaped(SHAPES, SOME), b=1, **INTS), tier="thorough"),
    Scenario("edited-all", edited(shaped(B, TESTS), b=1, **INTS), tier="thorough"),
    Scenario("many", many(shaped(B, SOME[:4]))),
    Scenario("iterators", iterators(shaped(B, SOME[:5]), False, b=1, turns=3, **INTS)),
    Scenario("iterators-same", iterators(shaped(B, SOME), True, b=2, turns=4, atoms=("int",), inner=("int",))),
    Scenario("iterators-members", iterators(shaped(B + SHAPES[3:4], SOME[:1]), False, b=2, turns=3, members=True, atoms=("int",), inner=("int",))),
    Scenario("aiterators", aiterators(shaped(B, SOME[:3]), b=1, turns=3, **INTS)),
    Scenario("aiterators-members", aiterators(shaped(B, SOME[:1]), b=2, turns=3, members=True, atoms=("int",), inner=("int",))),
    Scenario("aiterators-all", aiterators(shaped(SHAPES, SOME), b=2, turns=4, **INTS), tier="thorough"),
    Scenario("functions", functions(CALLS, 2)),
    Scenario("tasks", tasks(shaped(B, SOME[:3]), b=1, **INTS)),
    Scenario("threads", threads(shaped(B, SOME[:6]), 320)),
    Scenario("compiling", compiling(("$.b[?@ == $.x]", "$..a", "$[?"), 420)),
    Scenario("recompile", recompile((("$", ""), ("$[?@ == '", "']"), ("$[", "]"), ("$[?", "]"), ("$[?@ =~ /", "/]")), 0, 1)),
    Scenario("recompile-all", lambda g, lib: recompile(((t, "") for t in [g.choice("q", shaped(SHAPES, TESTS))]), 0, 0)(g, lib)),
    Scenario("functions-all", functions(CALLS), tier="thorough"),
    Scenario("caching-pairs-all", caching(shaped(SHAPES[:2], PAIRS), b=2, **MIXED), tier="thorough"),
    Scenario("caching-tests-all", caching(shaped(SHAPES, TESTS), b=2, **MIXED), tier="thorough"),
    Scenario("history-3", history(shaped(SHAPES[:3], SOME), uses=3, b=2, **MIXED), tier="thorough"),
    Scenario("iterators-2", iterators(shaped(B, TESTS), False, b=2, turns=5, **INTS), tier="thorough"),
    Scenario("iterators-3", iterators(shaped(SHAPES, SOME), True, b=3, turns=6, **MIXED), tier="thorough"),
    Scenario("tasks-2", tasks(shaped(B, TESTS), b=2, **INTS), tier="thorough"),
    Scenario("threads-all", threads(shaped(SHAPES[:3], TESTS), 640), tier="thorough"),
    Scenario("compiling-all", compiling(shaped(B, SOME) + ("$[?", "$..a[1:2]", "$['a', \"b\"]", "$ | $.a"), 600), tier="thorough"),
    Scenario("recompile-3", recompile((("$", ""), ("$[?@ == '", "']"), ("$[", "]"), ("$[?", "]"), ("$[?@ =~ /", "/]")), 0, 3), tier="thorough"),
]
