"""C12: query iterator operations are list operations on the match sequence."""
from checks.util import attempt
from se.harness import Scenario

NEGS = ("limit", "head", "first", "drop", "skip", "tail", "last", "take", "tee")
OPS = ("limit", "drop", "tail", "take", "tee", "first_one", "last_one", "one", "next")
VIEWS = ("iter", "values", "locations", "items", "pointers", "first_one", "last_one")


def start(g, lib, n, ctor="query"):
    doc = [[i] for i in range(n)]
    if ctor == "falsy":
        doc = [None, False, 0, "", [], {}, 0.0, True][:n]
        return doc, lib.query("$[*]", doc), ["$[%d]" % i for i in range(n)], ["/%d" % i for i in range(n)]
    if ctor == "same":
        doc = [doc] * n
        return doc, lib.query("$.*", doc), ["$[%d]" % i for i in range(n)], ["/%d" % i for i in range(n)]
    if ctor == "compound":
        q = lib.query("$[:1] | $[1:]", doc)
    elif ctor == "compiled":
        q = lib.compile("$[*]").query(doc)
    elif ctor == "object":
        q = lib.query("$.*", {"k%d" % i: doc[i] for i in range(n)})
        return doc, q, ["$['k%d']" % i for i in range(n)], ["/k%d" % i for i in range(n)]
    else:
        q = lib.query("$[*]", doc)
    return doc, q, ["$[%d]" % i for i in range(n)], ["/%d" % i for i in range(n)]


def step(g, pool, j, op, n, doc):
    """Apply op to pool[j]; pool holds [query, list of remaining indices]."""
    q, xs = pool[j]
    if op in ("first_one", "one", "last_one"):
        m = getattr(q, op)()
        if not xs:
            g.require(m is None, op + "() of nothing gives a match")
        else:
            w = xs[-1] if op == "last_one" else xs[0]
            if m is None:
                g.fail(op + "() gives nothing")
            g.require(m.obj is doc[w], op + "() gives another match")
        pool[j][1] = [] if op == "last_one" else xs[1:]
        return
    if op == "next":
        m = next(iter(q), None)
        if not xs:
            g.require(m is None, "an exhausted query yields a match")
        else:
            g.require(m is not None and m.obj is doc[xs[0]], "iterating yields another match")
        pool[j][1] = xs[1:]
        return
    kind, r = attempt(getattr(q, op), n)
    if n < 0:
        g.require(kind == "err", op + "() accepts a negative count")
        g.require(isinstance(r, ValueError), op + "() refuses a negative count with another error")
        return
    if kind == "err":
        g.fail(op + "() fails: " + type(r).__name__)
    if op in ("limit", "head", "first"):
        pool[j][0] = r
        pool[j][1] = xs[:n]
    elif op in ("drop", "skip"):
        pool[j][0] = r
        pool[j][1] = xs[n:]
    elif op in ("tail", "last"):
        pool[j][0] = r
        pool[j][1] = xs[max(0, len(xs) - n):]
    elif op == "take":
        pool[j][1] = xs[n:]
        pool.append([r, xs[:n]])
    else:
        r = list(r)
        g.require(len(r) == n, "tee() gives another number of queries")
        del pool[j]
        for t in r:
            pool.append([t, list(xs)])


def view(g, entry, how, doc, locs, ptrs):
    q, xs = entry
    if how in ("first_one", "last_one"):
        step(g, [entry], 0, how, 0, doc)
        return
    if how == "iter":
        got = [m.obj for m in q]
    elif how == "values":
        got = list(q.values())
    elif how == "locations":
        g.require(list(q.locations()) == [locs[i] for i in xs], "locations() lists something else")
        return
    elif how == "pointers":
        g.require([str(p) for p in q.pointers()] == [ptrs[i] for i in xs], "pointers() lists something else")
        return
    else:
        pairs = list(q.items())
        g.require([p[0] for p in pairs] == [locs[i] for i in xs], "items() lists other locations")
        got = [p[1] for p in pairs]
    g.require(len(got) == len(xs), how + ": number of matches")
    for v, i in zip(got, xs):
        g.require(v is doc[i], how + ": another match")


def chain(k, nmax, ops, views=("values",), ctors=("query",), negative=False):
    def fn(g, lib):
        """Chains of k operations with free counts on up to nmax matches."""
        n = g.count("n", 0, nmax)
        doc, q, locs, ptrs = start(g, lib, n, g.choice("ctor", ctors))
        pool = [[q, list(range(n))]]
        log = []
        for i in range(k):
            if not pool:
                break
            j = g.count("which%d" % i, 0, len(pool) - 1)
            op = g.choice("op%d" % i, ops)
            c = 0
            if op in NEGS:
                hi = 2 if op == "tee" else nmax + 1
                c = g.int("c%d" % i, -1 if negative else 0, hi)
                if op == "tee":
                    c = g.count("t%d" % i, -1 if negative else 0, hi)
            log.append([op, j])
            step(g, pool, j, op, c, doc)
        g.trace([log, [xs for _, xs in pool]])
        order = range(len(pool))
        if len(pool) > 1 and g.flag("backwards"):
            order = range(len(pool) - 1, -1, -1)
        how = g.choice("view", views)
        for j in order:
            view(g, pool[j], how, doc, locs, ptrs)

    return fn


def long(g, lib):
    """Two operations on longer match sequences."""
    n = g.choice("n", (9, 16, 40))
    doc, q, locs, ptrs = start(g, lib, n)
    pool = [[q, list(range(n))]]
    for i in range(2):
        step(g, pool, 0, g.choice("op%d" % i, ("limit", "drop", "tail", "take")), g.int("c%d" % i, 0, 42), doc)
    for e in pool:
        view(g, e, "values", doc, locs, ptrs)


def far(g, lib):
    """Two operations on sequences of hundreds of matches."""
    n = g.choice("n", (130, 300))
    doc, q, locs, ptrs = start(g, lib, n)
    pool = [[q, list(range(n))]]
    for i in range(2):
        step(g, pool, 0, g.choice("op%d" % i, ("limit", "drop", "tail", "take")), g.choice("c%d" % i, (0, 1, 33, 64, 65, 100, 129, 200)), doc)
    for e in pool:
        view(g, e, "values", doc, locs, ptrs)


def aliases(g, lib):
    """head/first, skip, last and one are the operations they alias."""
    n = g.count("n", 0, 3)
    a, b = g.choice("pair", (("limit", "head"), ("limit", "first"), ("drop", "skip"), ("tail", "last")))
    doc, q, locs, ptrs = start(g, lib, n, g.choice("ctor", ("query", "compiled", "object", "compound")))
    pool = [[q, list(range(n))]]
    c = g.int("c", -1, 4)
    step(g, pool, 0, b if g.flag("alias") else a, c, doc)
    view(g, pool[0], g.choice("view", VIEWS), doc, locs, ptrs)


def interleaved(steps, nmax):
    def fn(g, lib):
        """Teed and taken queries advanced in any interleaving."""
        n = g.count("n", 0, nmax)
        doc, q, locs, ptrs = start(g, lib, n)
        pool = [[q, list(range(n))]]
        pre = g.choice("pre", ("none", "drop", "limit"))
        if pre != "none":
            step(g, pool, 0, pre, g.int("c", 0, nmax), doc)
        if g.flag("tee"):
            step(g, pool, 0, "tee", g.count("t", 2, 3), doc)
        else:
            step(g, pool, 0, "take", g.int("t", 0, nmax + 1), doc)
        for i in range(steps):
            step(g, pool, g.count("s%d" % i, 0, len(pool) - 1), g.choice("o%d" % i, ("next", "first_one")), 0, doc)
        for e in pool:
            view(g, e, "values", doc, locs, ptrs)

    return fn


def falsy(g, lib):
    """Matches whose values are null, false, zero, empty, equal or identical."""
    n = g.count("n", 0, 6)
    doc, q, locs, ptrs = start(g, lib, n, g.choice("ctor", ("falsy", "same")))
    pool = [[q, list(range(n))]]
    for i in range(2):
        op = g.choice("op%d" % i, ("limit", "drop", "tail", "take", "first_one", "last_one", "next"))
        step(g, pool, 0, op, g.int("c%d" % i, 0, 7) if op in NEGS else 0, doc)
    g.trace([xs for _, xs in pool])
    how = g.choice("view", ("values", "items", "last_one", "first_one"))
    for e in pool:
        view(g, e, how, doc, locs, ptrs)


def tees(g, lib):
    """Up to seven teed queries, each of which sees every match, whichever is
    advanced first and whatever is done to one of them."""
    n = g.count("n", 0, 3)
    doc, q, locs, ptrs = start(g, lib, n, g.choice("ctor", ("query", "falsy")))
    pool = [[q, list(range(n))]]
    if g.flag("used"):
        step(g, pool, 0, "next", 0, doc)
    t = g.choice("t", (0, 1, 3, 4, 7))
    step(g, pool, 0, "tee", t, doc)
    g.require(len(pool) == t, "tee() gives another number of queries")
    if t:
        for i in range(2):
            j = min(t - 1, g.choice("j%d" % i, (0, 3, 6)))
            step(g, pool, j, g.choice("op%d" % i, ("next", "drop", "last_one")), g.int("c%d" % i, 0, 3), doc)
    order = range(t) if g.flag("forwards") else range(t - 1, -1, -1)
    for j in order:
        view(g, pool[j], "values", doc, locs, ptrs)


def refused(g, lib):
    """A refused negative count changes nothing, wherever it comes in a chain."""
    n = g.count("n", 0, 3)
    doc, q, locs, ptrs = start(g, lib, n)
    pool = [[q, list(range(n))]]
    if g.flag("pre"):
        step(g, pool, 0, g.choice("op0", ("limit", "drop", "tail", "first_one")), g.int("c0", 0, 2), doc)
    op = g.choice("op", NEGS)
    c = g.int("c", -3, -1)
    step(g, pool, 0, op, c, doc)
    if g.flag("post"):
        step(g, pool, 0, g.choice("op2", ("limit", "drop", "tail", "take")), g.int("c2", -1, 2), doc)
    for e in pool:
        view(g, e, "values", doc, locs, ptrs)


def untouched(g, lib):
    """The matches a chain keeps are the full matches (path, parts, parent)."""
    names = ["a", "b", "c"]
    doc = {x: {"v": i} for i, x in enumerate(names)}
    full = list(lib.finditer("$..v", doc))
    c = g.int("c", 0, 4)
    op = g.choice("op", ("limit", "drop", "tail", "take"))
    q = getattr(lib.query("$..v", doc), op)(c)
    want = full[c:] if op == "drop" else full[max(0, 3 - c):] if op == "tail" else full[:c]
    got = list(q)
    g.trace([m.path for m in got])
    g.require(len(got) == len(want), "number of matches")
    for m, w in zip(got, want):
        g.require(m.path == w.path and m.parts == w.parts and m.obj == w.obj and m.parent.path == w.parent.path,
                  "a match changed on the way through a query")


def documents(k, kinds):
    return lambda g, lib: documents_(g, lib, k, kinds)


def documents_(g, lib, k, kinds):
    """Match sequences of free documents, then a two-operation chain."""
    doc = g.json("doc", g.Spec(kinds=kinds, depth=2, width=2, keys=("a", "b"), ints=(0, 1),
                               child=g.Spec(kinds=("int", "null", "list"), depth=1, width=1, keys=("a",), ints=(0, 1))))
    full = lib.findall("$..*", doc)
    q = lib.query("$..*", doc)
    xs = list(range(len(full)))
    for i in range(k):
        op = g.choice("op%d" % i, ("limit", "drop", "tail"))
        c = g.int("c%d" % i, 0, 3)
        q = getattr(q, op)(c)
        xs = xs[:c] if op == "limit" else xs[c:] if op == "drop" else xs[max(0, len(xs) - c):]
    got = list(q.values())
    g.trace(len(got))
    g.require(len(got) == len(xs), "number of values")
    for v, i in zip(got, xs):
        g.require(g.same(v, full[i]), "another value")


SCENARIOS = [
    Scenario("single", chain(1, 4, NEGS + ("first_one", "one", "last_one", "next"), VIEWS,
                             ("query", "compiled", "object", "compound"), negative=True)),
    Scenario("pairs", chain(2, 3, OPS, ("values", "items"), negative=True)),
    Scenario("triples", chain(3, 2, ("limit", "drop", "tail", "take", "first_one", "last_one"))),
    Scenario("triples-tee", chain(3, 2, OPS, negative=True), tier="thorough"),
    Scenario("fours", chain(4, 3, ("limit", "drop", "tail", "take", "tee", "first_one", "last_one")), tier="thorough"),
    Scenario("long", long),
    Scenario("far", far),
    Scenario("triples3", chain(3, 3, ("limit", "drop", "tail", "take", "tee", "first_one"), ("iter",))),
    Scenario("aliases", aliases),
    Scenario("interleaved", interleaved(3, 3)),
    Scenario("interleaved5", interleaved(5, 4), tier="thorough"),
    Scenario("falsy", falsy),
    Scenario("tees", tees),
    Scenario("refused", refused),
    Scenario("untouched", untouched),
    Scenario("documents", documents(1, ("list", "dict", "int"))),
    Scenario("documents2", documents(2, ("list", "dict", "int"))),
]
