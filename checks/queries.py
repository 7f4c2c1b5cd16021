"""Generators of query programs and documents, shared by the query checks."""
from ref import query as Q
from ref import spell as S

DIGITS = "0123456789"


def digits(g, nm, n, sign=True):
    """(text, value) of an RFC 9535 int of at most n digits."""
    t = g.str(nm, 1, n, g.ranges((48, 57)))
    if len(t) > 1:
        g.assume(t[0] != "0")
    v = int(t)
    if sign and g.flag(nm + "-"):
        g.assume(v != 0)
        return "-" + t, -v
    return t, v


def blank1(g):
    """A Style.blank yielding "" or one blank, each its own symbolic text."""
    c = [0]

    def b():
        c[0] += 1
        return g.str("b%d" % c[0], 0, 1, g.ranges((9, 10), (13, 13), (32, 32)))

    return b


def blanks_at(g, k, n=24):
    """A Style.blank giving one blank, of any kind, at k free positions below n."""
    at = []
    for i in range(k):
        at.append(g.count("p%d" % i, at[-1] + 1 if at else 0, n - k + i))
    c = [0]

    def b():
        c[0] += 1
        return g.str("b%d" % c[0], 1, 1, g.ranges((9, 10), (13, 13), (32, 32))) if c[0] - 1 in at else ""

    return b


def selector(g, nm, names, kinds=("name", "index", "slice", "wild"), idx=(0, 1, -1), slices=None, filters=()):
    k = g.choice(nm + "k", kinds)
    if k == "name":
        return ("name", g.choice(nm + "n", names))
    if k == "index":
        return ("index", g.choice(nm + "i", idx))
    if k == "slice":
        return g.choice(nm + "s", slices or (("slice", None, None, None), ("slice", 1, None, None),
                                             ("slice", None, None, -1), ("slice", 0, -1, 2)))
    if k == "filter":
        return ("filter", g.choice(nm + "f", filters))
    return (k,)


def segments(g, nm, k, names, width=1, desc=True, **kw):
    """At most k segments of at most width selectors."""
    out = []
    for i in range(g.count(nm + "n", 0, k)):
        p = "%s%d" % (nm, i)
        d = "desc" if desc and g.flag(p + "d") else "child"
        w = g.count(p + "w", 1, width) if width > 1 else 1
        out.append((d, [selector(g, "%s_%d" % (p, j), names, **kw) for j in range(w)]))
    return out


def values(m):
    return [v for _, v in m]


def same_nodes(g, got, want, label):
    """got: values from the library; want: reference nodelist."""
    g.require(len(got) == len(want), label + ": number of nodes")
    for a, b in zip(got, want):
        g.require(g.same(a, b[1]), label + ": another node")


def show(q):
    return S.query(q)


def q(root, *segs):
    return (root, [s if isinstance(s[0], str) and s[0] in ("child", "desc") else ("child", [s]) for s in segs])


def names(*ns):
    """$['a']['b'] ..."""
    return [("child", [("name", n)]) for n in ns]


def wide(g, nm="w", most=13):
    """Arrays and objects of every length up to `most`, alone and nested; the
    member names are those of the indices, in or against numeric order."""
    n = g.count(nm + "n", 0, most)
    shape = g.choice(nm + "shape", ("list", "dict", "rev", "lists", "dicts"))
    if shape == "list":
        return list(range(n))
    if shape == "dict":
        return {str(i): i for i in range(n)}
    if shape == "rev":
        return {str(n - 1 - i): i for i in range(n)}
    if shape == "lists":
        return [[i, [i]] for i in range(n)]
    return [{"a": i, "1": [i]} for i in range(n)]


def tall(g, nm="t", most=12):
    """A chain of arrays and objects of every depth up to `most`."""
    v = 0
    kind = g.choice(nm + "kind", ("list", "dict", "both"))
    for i in range(g.count(nm + "n", 0, most)):
        if kind == "list" or (kind == "both" and i % 2):
            v = [i, v]
        else:
            v = {"a": v, "b": i}
    return v


def vast(g, nm="v", sizes=(70, 130, 300), depths=(35, 70, 95), kinds=("list", "dict", "lists", "dicts", "down-list", "down-dict", "down-both", "names")):
    """A document of hundreds of members, of scores of levels, or with names
    and strings of hundreds of characters; and selectors that reach into it."""
    kind = g.choice(nm + "kind", kinds)
    if kind.startswith("down"):
        n = depths[g.count(nm + "n", 0, len(depths) - 1)]
        v = 0
        for i in range(n):
            v = [i, v] if kind == "down-list" or kind == "down-both" and i % 2 else {"b": i, "a": v}
        return v, (("desc", [("wild",)]), ("desc", [("name", "a")]), ("desc", [("index", -1)]), ("desc", [("index", 0), ("name", "b")]))
    n = sizes[g.count(nm + "n", 0, len(sizes) - 1)]
    if kind == "names":
        x, y = "x" * n, "y" * n
        return ({x: {y: "s" * n, y + "z": [1], y[1:]: 2}, x[:-1]: {y: 3}, x + "'": [{y: 4}]},
                (("desc", [("name", y)]), ("child", [("name", x)]), ("child", [("name", x + "'")]), ("desc", [("wild",)])))
    sels = (("child", [("wild",)]), ("child", [("index", -1), ("index", n - 1), ("index", n)]), ("child", [("index", 66), ("index", -66)]),
            ("child", [("slice", None, None, -1)]), ("child", [("slice", 3, n - 2, 7)]), ("child", [("slice", -68, None, None), ("index", 65)]),
            ("child", [("name", str(n - 1)), ("name", "64")]), ("desc", [("index", 0), ("name", "a")]), ("desc", [("wild",)]))
    if kind == "list":
        return list(range(n)), sels
    if kind == "dict":
        return {str(n - 1 - i): i for i in range(n)}, sels
    if kind == "lists":
        return [[i, [i]] for i in range(n)], sels
    return [{"a": i, "64": [i]} for i in range(n)], sels


def aliased(g, nm="al"):
    """Documents in which one container, or an equal one, is in two or three
    places: neighbours, far apart, above and below one another."""
    x = g.choice(nm + "x", ({"a": 1}, [1, {"a": 0}], {"a": {"a": []}}, [], {}, [True, 1, 1.0]))
    y = x if g.flag(nm + "same") else g.copy(x)
    shape = g.choice(nm + "shape", ("pair", "members", "apart", "below", "above", "cross"))
    if shape == "pair":
        return [x, y]
    if shape == "members":
        return {"a": x, "b": y}
    if shape == "apart":
        return [x, 0, y, x]
    if shape == "below":
        return {"b": [y], "a": x}
    if shape == "above":
        return [x, {"a": y}, [[x]]]
    return {"a": {"a": x, "b": y}, "b": {"a": y, "b": x}}


PAYLOADS = ({"b": {"a": 0}, "a": [0, {"a": 1}], "": [2]}, [[0, {"a": 1}], {"": 0, "a": [1], "b": None}, 5, "s"], [])


# strings that are themselves JSON texts: in a document they are strings
TEXTS = ('{"a": 1}', '[{"a": 1}, 1]', "[]", '"a"', "1", "{")


def textual(g, nm="tx"):
    """A document in which a string that is a JSON text stands beside the value
    that text denotes."""
    v = g.choice(nm + "v", TEXTS)
    return g.choice(nm + "doc", ({"a": v, "b": {"a": 1}, "c": [{"a": 1}, 1]}, [v, [v, "a"], {"a": v}], {"a": {"a": v}, "b": [v]}))


def deep(g, nm="dp", most=6):
    """(document, segments): a payload below up to `most` containers, and the
    segments, by name and index or by wildcard, that lead to it."""
    kind = g.choice(nm + "kind", ("list", "dict", "both"))
    wild = g.flag(nm + "wild")
    v = g.choice(nm + "v", PAYLOADS)
    segs = []
    for i in range(g.count(nm + "n", 0, most)):
        if kind == "list" or (kind == "both" and i % 2):
            v, s = [i, v], ("index", -1 if i % 3 else 1)
        else:
            v, s = {"b": i, "a": v}, ("name", "a")
        segs.insert(0, ("child", [("wild",) if wild else s]))
    return v, segs


def doc_spec(g, depth, width, root=("null", "false", "int", "list", "dict"),
             kinds=("null", "false", "int", "str", "list", "dict"), ints=(0, 9), klen=1, slen=1, cwidth=None, **kw):
    """Documents: the root is no string (a string document is JSON text)."""
    kid = g.Spec(kinds=kinds, depth=depth - 1, width=cwidth or width, klen=klen, slen=slen, ints=ints, **kw)
    return g.Spec(kinds=root, depth=depth, width=width, klen=klen, slen=slen, ints=ints, child=kid, **kw)
