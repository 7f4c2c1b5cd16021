"""C05: JSON Patch application conforms to RFC 6902."""
from ref import patch as P
from ref import pointer as R
from checks.patches import SIX, free_path, make_op, picked_path, small, value
from checks.util import attempt, name
from se.harness import Scenario


def judge(g, lib, ops, make_doc, via="apply"):
    st, want = P.apply(make_doc(), ops, g.eq)
    if st == P.EXT:
        return
    doc = make_doc()
    js = [P.to_json(o) for o in ops]
    if via == "apply":
        kind, got = attempt(lib.patch.apply, js, doc)
    else:
        kind, got = attempt(lambda: lib.JSONPatch(js).apply(doc))
    g.trace([st, kind, name(got) if kind == "err" else got])
    if st == P.OK:
        g.require(kind == "ok", "a patch RFC 6902 accepts fails: " + name(got))
        g.require(g.eq(got, want), "the patched document is not the one RFC 6902 defines")
        return
    g.require(kind == "err", "a patch RFC 6902 refuses is applied")
    g.require(isinstance(got, lib.JSONPatchError), "failed with " + name(got))
    if st == P.TEST:
        g.require(isinstance(got, lib.JSONPatchTestFailure), "a failed test raised " + name(got))


def single(kinds, k, n, depth, width, klen):
    def fn(g, lib):
        """One operation with free paths against any document of the stated
        shape."""
        op = make_op(g, 0, lambda nm: free_path(g, nm, k, n), kinds)
        judge(g, lib, [op], lambda: g.json("doc", small(g, depth, width, klen)))

    return fn


TOKS = ("a", "0", "1", "-")


def sequence(k, toks, depth, width, keys, plen, kinds=SIX):
    def fn(g, lib):
        """k operations over a small token alphabet."""
        ops = [make_op(g, i, lambda nm: picked_path(g, nm, plen, toks), kinds,
                       lambda g, nm: g.choice(nm, ([], {}, 7, True, "s")))
               for i in range(k)]
        judge(g, lib, ops, lambda: g.json("doc", small(g, depth, width, 1, keys=keys,
                                                       kinds=("int", "list", "dict"), ints=(7, 7))))

    return fn


def indices(g, lib):
    """Array positions, canonical or not, against arrays of up to twelve items."""
    n = g.choice("n", (0, 1, 2, 4, 10, 11, 12))
    tok = g.str("tok", 0, 2, g.ranges((43, 57), (32, 32), (95, 95), (0x660, 0x669), (0xFF10, 0xFF19)))
    deep = g.flag("deep")
    pre = ["x"] if deep else []
    k = g.choice("op", SIX + ("from-move", "from-copy"))
    path = pre + [tok]
    if k == "from-move":
        op = {"op": "move", "from": path, "path": pre + [g.choice("to", ("0", "1", "-"))]}
    elif k == "from-copy":
        op = {"op": "copy", "from": path, "path": pre + [g.choice("to", ("0", "1", "-"))]}
    elif k in ("move", "copy"):
        op = {"op": k, "from": pre + [g.choice("frm", ("0", "1"))], "path": path}
    else:
        op = {"op": k, "path": path}
        if k != "remove":
            op["value"] = g.int("v", 0, 4)

    def doc():
        xs = [i for i in range(n)]
        return {"x": xs} if deep else xs

    judge(g, lib, [op], doc)


def members(g, lib):
    """Object members with free names, integer-like ones included."""
    a = g.str("a", 0, 2)
    b = g.str("b", 0, 1)
    t = g.str("t", 0, 2)
    g.assume(a != b)
    g.assume("\\" not in t)
    k = g.choice("op", SIX + ("from-move",))
    deep = g.flag("deep")
    pre = ["x"] if deep else []
    if k == "from-move":
        g.assume("\\" not in b)
        op = {"op": "move", "from": pre + [t], "path": pre + [b]}
    elif k in ("move", "copy"):
        g.assume("\\" not in a)
        op = {"op": k, "from": pre + [a], "path": pre + [t]}
    else:
        op = {"op": k, "path": pre + [t]}
        if k != "remove":
            op["value"] = 1

    def doc():
        d = {a: 1, b: 2}
        return {"x": d} if deep else d

    judge(g, lib, [op], doc)


def equality(depth, width):
    def fn(g, lib):
        """test is deep JSON equality."""
        sp = g.Spec(kinds=("null", "true", "false", "int", "float", "str", "list", "dict"), depth=depth,
                    width=width, klen=1, slen=1, ints=(0, 2), floats=(0, 8), alpha=g.ranges((97, 98)),
                    kalpha=g.ranges((97, 98)))
        v = g.json("v", sp)
        toks = ["a"] if g.flag("dict") else ["0"]
        op = {"op": "test", "path": toks, "value": v}
        judge(g, lib, [op], lambda: {"a": g.json("w", sp)} if toks == ["a"] else [g.json("w", sp)])

    return fn


def long_tokens(g, lib):
    """Array positions of up to thousands of digits are refused."""
    d = g.choice("d", ("9", "1", "0", "-1"))
    tok = d * g.choice("n", (1, 9, 15, 16, 17, 19, 20, 309, 4300, 4301, 5000))
    path = ["a", tok] + (["b"] if g.flag("below") else [])
    k = g.choice("op", SIX + ("from-move", "from-copy"))
    if k in ("from-move", "from-copy"):
        op = {"op": k[5:], "from": path, "path": ["z"]}
    else:
        op = {"op": k, "path": path}
        if k in ("move", "copy"):
            op["from"] = ["b"]
        elif k != "remove":
            op["value"] = 5
    judge(g, lib, [op], lambda: {"a": [1, {"b": 2}], "b": 7})


def roots(g, lib):
    """Replacing, producing and testing the root, scalars included."""
    sp = g.Spec(kinds=("null", "true", "false", "int", "str", "list", "dict"), depth=1, width=1, klen=1, slen=2,
                ints=(0, 1), alpha=g.ranges((34, 34), (48, 49), (91, 91), (97, 97), (123, 123)))
    nr = g.Spec(kinds=("null", "true", "int", "list", "dict"), depth=2, width=1, klen=1, slen=1, ints=(0, 1),
                keys=("a", "0"))
    first = {"op": g.choice("op0", ("add", "replace")), "path": [], "value": g.json("v", sp)}
    if g.flag("promote"):
        first = {"op": g.choice("op0b", ("move", "copy")), "from": [g.choice("frm", ("a", "0"))], "path": []}
    ops = [first]
    k = g.choice("op1", ("none", "add", "remove", "replace", "test", "copy", "move", "test-root", "move-root"))
    if k == "test-root":
        ops.append({"op": "test", "path": [], "value": g.json("w", sp)})
    elif k == "move-root":
        ops.append({"op": g.choice("mr", ("move", "copy")), "from": [], "path": []})
    elif k != "none":
        op = {"op": k, "path": [g.choice("p1", ("a", "0", "-"))]}
        if k in ("move", "copy"):
            op["from"] = [g.choice("f1", ("a", "0"))]
        elif k != "remove":
            op["value"] = 5
        ops.append(op)
    judge(g, lib, ops, lambda: g.json("doc", nr))


def copies(g, lib):
    """A copied value is independent of its source: edits of one do not show in
    the other."""
    inner = small(g, 2, 1, 1, keys=("k",), kinds=("int", "list", "dict"), ints=(1, 1))
    into = g.choice("into", ("b", "l"))
    src = ["a"]
    dst = ["b"] if into == "b" else ["l", g.choice("at", ("0", "-", "1"))]
    at = ["b"] if into == "b" else ["l", "1" if dst[1] == "1" else "0"]
    edit = g.choice("edit", ("src", "dst"))
    base = src if edit == "src" else at
    p = base + [g.choice("e%d" % i, ("k", "0")) for i in range(g.count("en", 1, 2))]
    k = g.choice("op", ("add", "remove", "replace"))
    op = {"op": k, "path": p}
    if k != "remove":
        op["value"] = 9
    ops = [{"op": "copy", "from": src, "path": dst}, op]
    judge(g, lib, ops, lambda: {"a": g.json("inner", inner), "l": [0] if dst[-1] == "1" else []},
          g.choice("via", ("apply", "object")))


def recopies(g, lib):
    """Copies within one array or object - onto the source's own place, next to
    it, into the source itself - and then an edit inside one of them."""
    kind = g.choice("kind", ("object", "array"))
    step = "k" if kind == "object" else "0"

    def inner():
        return {"k": 1} if kind == "object" else [1]

    places = (["l", "0"], ["l", "1"], ["l", "-"], ["a"], ["a", step], ["l"], [])
    src = places[g.count("src", 0, 6)]
    dst = places[g.count("dst", 0, 6)]
    edits = (["l", "0", step], ["l", "1", step], ["l", "2", step], ["a", step],
             ["a", step, step], ["a", "0", step], ["l", "0", "0", step])
    p = edits[g.count("at", 0, 6)]
    k = g.choice("op", ("add", "remove", "replace"))
    op = {"op": k, "path": p}
    if k != "remove":
        op["value"] = 9
    judge(g, lib, [{"op": "copy", "from": src, "path": dst}, op],
          lambda: {"a": inner(), "l": [inner(), inner()]}, "object")


def children(g, lib):
    """Moving a value into its own child, along free member names."""
    a = g.str("a", 0, 2, g.minus(g.ALPHABET, "\\"))
    b = g.str("b", 0, 2, g.minus(g.ALPHABET, "\\"))
    c = g.str("c", 0, 1, g.minus(g.ALPHABET, "\\"))
    n = g.count("n", 1, 2)
    op = {"op": "move", "from": [a], "path": [b, c][:n]}
    judge(g, lib, [op], lambda: {a: {"z": 1}, a + "q": {}})


def lengths(g, lib):
    """One operation with free positions on arrays of up to thirteen items,
    alone and inside an object."""
    n = g.choice("n", (3, 9, 10, 11, 13))
    pre = ["x"] if g.flag("deep") else []
    k = g.choice("op", SIX)

    def at(nm):
        return pre + [str(g.int(nm, 0, 14))]

    op = {"op": k, "path": at("i")}
    if k in ("move", "copy"):
        op["from"] = at("j")
    elif k != "remove":
        op["value"] = g.int("v", 0, 14)

    def doc():
        xs = list(range(n))
        return {"x": xs, "y": n} if pre else xs

    judge(g, lib, [op], doc)


def differing(g, lib):
    """`test` against long arrays and objects that differ in at most one place."""
    n = g.count("n", 0, 13)
    i = g.int("i", 0, 13)
    kind = g.choice("kind", ("list", "dict", "lists", "shorter"))
    v = g.choice("v", (0, False, None, 1, True, 1.0, "1", [], {}))

    def make(edit):
        xs = [1] * n
        if edit and i < n:
            xs[i] = v
        if kind == "shorter" and edit:
            return xs[:-1]
        if kind == "dict":
            return {str(n - j if edit else j): xs[n - j if edit else j] for j in range(1, n)}
        if kind == "lists":
            return [xs, {"k": xs}]
        return xs

    judge(g, lib, [{"op": "test", "path": ["a"], "value": make(True)}], lambda: {"a": make(False)})


def shared(g, lib):
    """Operations whose values are one and the same object are independent."""
    v = g.choice("v", ([], {"a": []}))
    k = g.count("k", 2, 3)
    ops = []
    for i in range(k):
        ops.append({"op": g.choice("op%d" % i, ("add", "replace")), "path": [g.choice("p%d" % i, ("a", "b"))],
                    "value": v})
    path = [g.choice("e0", ("a", "b")), g.choice("e1", ("a", "0", "-"))]
    if g.flag("deeper"):
        path.append(g.choice("e2", ("x", "-", "0")))
    ops.append({"op": g.choice("last", ("add", "replace")), "path": path, "value": 9})
    judge(g, lib, ops, lambda: {"a": 1, "b": []}, g.choice("via", ("apply", "object")))


def long(k):
    def fn(g, lib):
        """k edits of one array of integers, at free positions."""
        ops = []
        for i in range(k):
            o = g.choice("op%d" % i, ("add", "remove", "move"))
            op = {"op": o, "path": [g.choice("at%d" % i, ("0", "1", "2", "-"))]}
            if o == "add":
                op["value"] = 10 + i
            elif o == "move":
                op["from"] = [g.choice("fr%d" % i, ("0", "1"))]
            ops.append(op)
        judge(g, lib, ops, lambda: list(range(g.count("n", 1, 2))))

    return fn


def huge(g, lib):
    """Operations far into documents of hundreds of items, scores of levels,
    or names of hundreds of characters."""
    kind = g.choice("kind", ("list", "dict", "down-list", "down-dict", "name", "equal"))
    n = g.choice("n", (70, 90) if kind.startswith("down") else (70, 130, 300))
    op = {"op": g.choice("op", SIX)}

    def doc():
        if kind == "list":
            return {"l": list(range(n)), "z": 7}
        if kind == "dict":
            return {"l": {str(i): i for i in range(n)}, "z": 7}
        if kind == "name":
            return {"l": {"~/" * n: 1, "~" * n: 2}, "z": 7}
        if kind == "equal":
            return {"l": list(range(n)), "z": 7}
        v = 1
        for i in range(n):
            v = [v, i] if kind == "down-list" else {"0": v, "b": i}
        return {"l": v, "z": 7}

    last = g.choice("last", ("0", "1", "64", "129", str(n - 1), str(n), str(n + 1), "-"))
    path = ["l"] + (["0"] * (n - 1) + [last] if kind.startswith("down") else [] if kind == "equal" else ["~/" * n] if kind == "name" else [last])
    op["path"] = path
    if op["op"] in ("move", "copy"):
        other = ["z"] if g.flag("z") else ["new"] if g.flag("out") else ["l", "3"]
        op["from"], op["path"] = (path, other) if g.flag("swap") else (other, path)
    elif op["op"] != "remove":
        op["value"] = list(range(n - 1)) + [g.choice("end", (n - 1, n))] if kind == "equal" else g.choice("value", (1, 64, 7))
    judge(g, lib, [op], doc)


def tall_paths(g, lib):
    """Operations at the end of long paths."""
    n = g.count("n", 2, 12)
    kind = g.choice("kind", ("a", "0"))
    cut = g.int("cut", 0, 13)
    k = g.choice("op", SIX)

    def doc():
        v = 1
        for i in range(n):
            v = {"a": v, "0": i} if kind == "a" else [v, i]
        return v

    toks = ["a" if kind == "a" else "0"] * n
    toks = toks[:cut] + [g.choice("last", ("0", "1", "-", "a"))]
    op = {"op": k, "path": toks}
    if k in ("move", "copy"):
        op["from"] = ["a" if kind == "a" else "0"] * g.choice("depth", (1, 2, 11))
    elif k != "remove":
        op["value"] = 1
    judge(g, lib, [op], doc)


KEYS = ("a", "0")
SCENARIOS = [
    Scenario("single-add", single(("add", "replace"), 2, 1, 2, 1, 1)),
    Scenario("single-read", single(("remove", "test"), 2, 1, 2, 1, 1)),
    Scenario("single-move", single(("move", "copy"), 1, 1, 1, 2, 1)),
    Scenario("single-wide", single(SIX, 2, 2, 2, 2, 2), tier="thorough"),
    Scenario("sequence2", sequence(2, ("a", "0", "-"), 1, 1, KEYS, 1)),
    Scenario("sequence2-deep", sequence(2, ("a", "0"), 2, 1, ("a",), 2, ("move", "copy"))),
    Scenario("sequence3", sequence(3, TOKS, 2, 2, KEYS, 2), tier="thorough"),
    Scenario("indices", indices),
    Scenario("members", members),
    Scenario("equality1", equality(1, 1)),
    Scenario("equality2", equality(2, 2), tier="thorough"),
    Scenario("long-tokens", long_tokens),
    Scenario("roots", roots),
    Scenario("copies", copies),
    Scenario("recopies", recopies),
    Scenario("children", children),
    Scenario("lengths", lengths),
    Scenario("differing", differing),
    Scenario("shared", shared),
    Scenario("long3", long(3)),
    Scenario("long5", long(5), tier="thorough"),
    Scenario("tall", tall_paths),
    Scenario("huge", huge),
]
