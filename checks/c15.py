"""C15: a patch is a faithful, reusable value."""
from ref import patch as P
from ref import pointer as R
from checks.patches import free_path, make_op, picked_path, small, value
from checks.util import attempt, name
from se.harness import Scenario

EIGHT = ("add", "addne", "addap", "remove", "replace", "move", "copy", "test")


def build(lib, ops, objects=False):
    p = lib.JSONPatch()
    for o in ops:
        path = R.spell(o["path"])
        if objects:
            path = lib.JSONPointer(path)
        k = o["op"]
        if k in ("move", "copy"):
            frm = R.spell(o["from"])
            if objects:
                frm = lib.JSONPointer(frm)
            p = getattr(p, k)(from_=frm, path=path)
        elif k == "remove":
            p = p.remove(path)
        else:
            p = getattr(p, k)(path, o["value"])
    return p


def same_outcome(g, a, b, label):
    g.require(a[0] == b[0], label + ": one succeeds, the other fails")
    if a[0] == "ok":
        g.require(g.eq(a[1], b[1]), label + ": different documents")
    else:
        g.require(name(a[1]) == name(b[1]), label + ": different errors")


def forms(k, path, keys, depth=1, width=1, val=None):
    def fn(g, lib):
        """Document form, builder chain, builder with pointer objects, JSON text
        and the patch's own dicts."""
        ops = [make_op(g, i, lambda nm: path(g, nm), EIGHT, val) for i in range(k)]
        js = [P.to_json(o) for o in ops]
        a = lib.JSONPatch(js)
        g.require(g.eq(a.asdicts(), js), "asdicts() differs from the document it was built from")
        how = g.choice("form", ("builder", "objects", "dicts", "text", "file"))
        if how == "builder":
            b = build(lib, ops)
        elif how == "objects":
            b = build(lib, ops, True)
        elif how == "dicts":
            b = lib.JSONPatch(a.asdicts())
        elif how == "text":
            b = lib.JSONPatch(g.json_text(js))
        else:
            b = lib.JSONPatch(g.json_file(js))
        d = b.asdicts()
        g.require(g.eq(d, js), how + ": other dicts")
        for x, o in zip(d, ops):
            g.require(x["op"] == o["op"], how + ": another operation name")

        def doc():
            return g.json("doc", small(g, depth, width, 1, keys=keys))

        ra = attempt(a.apply, doc())
        rb = attempt(b.apply, doc())
        g.trace([how, ra[0], rb[0]])
        same_outcome(g, ra, rb, how)

    return fn


def scribble(v, depth=3):
    """Change every container reachable from v in place."""
    if isinstance(v, list):
        for x in list(v):
            scribble(x, depth - 1)
        v.append("!")
    elif isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, depth - 1)
        v["!"] = "!"


def reuse(k, path, keys, depth, kinds=EIGHT, val=None):
    def fn(g, lib):
        """Applying a patch twice; the first result is overwritten in between."""
        ops = [make_op(g, i, lambda nm: path(g, nm), kinds, val) for i in range(k)]
        js = [P.to_json(o) for o in ops]
        before = g.copy(js)
        how = g.flag("builder")
        p = build(lib, ops) if how else lib.JSONPatch(js)

        def doc():
            return g.json("doc", small(g, depth, 1, 1, keys=keys, kinds=("int", "list", "dict"), ints=(1, 1)))

        st, want = P.apply(doc(), [dict(o) for o in ops], g.eq)
        r1 = attempt(p.apply, doc())
        g.require(g.eq(p.asdicts(), before), "applying changed the patch")
        g.require(g.eq(js, before), "applying changed the caller's operations")
        keep = g.copy(r1[1]) if r1[0] == "ok" else r1[1]
        r2 = attempt(p.apply, doc())
        g.trace([st, r1[0], r2[0]])
        same_outcome(g, (r1[0], keep), r2, "second application")
        if r1[0] == "ok":
            g.require(g.eq(r1[1], keep), "the second application changed the first result")
            scribble(r1[1])
            g.require(g.eq(r2[1], keep), "results share structure")
            g.require(g.eq(p.asdicts(), before), "a result shares structure with the patch")
            g.require(g.eq(js, before), "a result shares structure with the caller's operations")
            r3 = attempt(p.apply, doc())
            same_outcome(g, (r1[0], keep), r3, "third application")
        if st == P.OK:
            g.require(r2[0] == "ok" and g.eq(r2[1], want), "the result is not the defined one")

    return fn


def variants(g, lib):
    """addne and addap against their definition, and against add."""
    k = g.choice("op", ("addne", "addap"))
    toks = [g.choice("t0", ("a", "0", "1", "2", "9", "-", "b"))]
    if g.flag("deep"):
        toks = [g.choice("pre", ("a", "0"))] + toks
    if g.flag("root"):
        toks = []
    op = {"op": k, "path": toks, "value": value(g, "v")}

    def doc():
        return g.json("doc", small(g, 2, 2, 1, keys=("a", "0"), kinds=("null", "int", "list", "dict"), ints=(0, 1)))

    st, want = P.apply(doc(), [op], g.eq)
    form = g.choice("form", ("doc", "builder"))
    p = lib.JSONPatch([P.to_json(op)]) if form == "doc" else build(lib, [op])
    kind, got = attempt(p.apply, doc())
    g.trace([st, kind])
    if st == P.EXT:
        return
    if st == P.OK:
        g.require(kind == "ok", k + " fails")
        g.require(g.eq(got, want), k + ": another document")
    else:
        g.require(kind == "err", k + " is applied where add fails")
        g.require(isinstance(got, lib.JSONPatchError), k + " raised " + name(got))


def variant_names(g, lib):
    """addne / addap on members with free names."""
    a = g.str("a", 0, 2)
    t = g.str("t", 0, 2, g.minus(g.ALPHABET, "\\"))
    k = g.choice("op", ("addne", "addap", "add"))
    op = {"op": k, "path": [t], "value": 1}
    st, want = P.apply({a: None}, [op], g.eq)
    kind, got = attempt(lib.patch.apply, [P.to_json(op)], {a: None})
    g.trace(kind)
    g.require(kind == "ok", k + " fails")
    g.require(g.eq(got, want), k + ": another document")


def names(g, lib):
    """Paths with free characters survive printing and rebuilding."""
    ue = g.flag("unicode_escape")
    toks = [g.str("t%d" % i, 0, 2) for i in range(g.count("n", 0, 2))]
    s = R.spell(toks)
    if ue:
        g.assume("\\" not in s)
    k = g.choice("op", EIGHT)
    o = {"op": k, "path": s}
    if k in ("move", "copy"):
        o["from"] = s
    elif k != "remove":
        o["value"] = {"x": [1]}
    a = lib.JSONPatch([o], unicode_escape=ue)
    d = a.asdicts()
    g.trace(d[0]["path"])
    g.require(g.eq(d, [o]), "asdicts() differs from the document it was built from")
    b = lib.JSONPatch(d, unicode_escape=ue)
    g.require(g.eq(b.asdicts(), [o]), "rebuilt patch prints other dicts")


def options(g, lib):
    """Escapes in paths are decoded alike in documents, builder calls and JSON
    text; the printed dicts need no more decoding."""
    ue = g.flag("unicode_escape")
    ud = g.flag("uri_decode")
    pieces = ("%61", "%2561", "%25", "\\u0061", "a", "%7E1", "~1", "%2F", "\\u002F", "%", "%C3%A9", "")
    s = "/" + g.choice("s0", pieces) + g.choice("s1", pieces)
    f = "/" + g.choice("f", ("%61", "a", "\\u0061"))
    k = g.choice("op", EIGHT)
    o = {"op": k, "path": s}
    if k in ("move", "copy"):
        o["from"] = f
    elif k != "remove":
        o["value"] = 1
    opts = {"unicode_escape": ue, "uri_decode": ud}
    form = g.choice("form", ("builder", "objects", "text"))
    ra = attempt(lambda: lib.JSONPatch([o], **opts))
    if form == "text":
        rb = attempt(lambda: lib.JSONPatch(g.json_text([o]), **opts))
    else:
        def make():
            pt = (lambda t: lib.JSONPointer(t, **opts)) if form == "objects" else (lambda t: t)
            p = lib.JSONPatch(**opts)
            if k in ("move", "copy"):
                return getattr(p, k)(from_=pt(f), path=pt(s))
            if k == "remove":
                return p.remove(pt(s))
            return getattr(p, k)(pt(s), 1)

        rb = attempt(make)
    g.require(ra[0] == rb[0], form + ": one is refused, the other is not")
    g.trace(ra[0])
    if ra[0] != "ok":
        return
    d = ra[1].asdicts()
    g.trace(d)
    g.require(g.eq(rb[1].asdicts(), d), form + ": other dicts")
    c = lib.JSONPatch(d, unicode_escape=False)
    g.require(g.eq(c.asdicts(), d), "the printed dicts are not read back as they were")
    doc = lambda: {"a": 1, "~1": 2, "": 3, "aa": 4, "/": {"a": 5}}
    x = attempt(ra[1].apply, doc())
    same_outcome(g, x, attempt(rb[1].apply, doc()), form)
    same_outcome(g, x, attempt(c.apply, doc()), "dicts")


def several(g, lib):
    """Lists of up to four operations, repetitions included, keep every
    operation in order, in every form and once extended."""
    n = g.count("n", 0, 4)
    ops = []
    for i in range(n):
        k = g.choice("op%d" % i, ("add", "remove", "test"))
        o = {"op": k, "path": [g.choice("p%d" % i, ("a", "0"))]}
        if k != "remove":
            o["value"] = 1
        ops.append(o)
    js = [P.to_json(o) for o in ops]
    form = g.choice("form", ("doc", "builder", "text", "dicts", "extended"))
    if form == "doc":
        p = lib.JSONPatch(js)
    elif form == "builder":
        p = build(lib, ops)
    elif form == "text":
        p = lib.JSONPatch(g.json_text(js))
    elif form == "dicts":
        p = lib.JSONPatch(lib.JSONPatch(js).asdicts())
    else:
        p = lib.JSONPatch(js[:2])
        for o in ops[2:]:
            if o["op"] == "remove":
                p.remove(R.spell(o["path"]))
            else:
                getattr(p, o["op"])(R.spell(o["path"]), o["value"])
    g.trace(form)
    g.require(g.eq(p.asdicts(), js), form + ": other dicts")
    doc = {"a": 1, "0": 1}
    st, want = P.apply(dict(doc), ops, g.eq)
    kind, got = attempt(p.apply, dict(doc))
    g.require((kind == "ok") == (st == P.OK), form + ": another outcome")
    if st == P.OK:
        g.require(g.eq(got, want), form + ": another document")


def falsy(g, lib):
    """addne leaves members with any value alone and adds what is missing; addap
    and add do not look at what is there."""
    cur = g.choice("cur", (None, False, 0, "", [], {}, 0.0, "missing"))
    new = g.choice("new", (None, False, 0, "", [], {}, 5))
    k = g.choice("op", ("add", "addne", "addap"))
    nm = g.choice("name", ("a", "0", "-", ""))
    deep = g.choice("deep", ("no", "dict", "list"))
    pre = {"no": [], "dict": ["x"], "list": ["0"]}[deep]
    op = {"op": k, "path": pre + [nm], "value": new}

    def doc():
        d = {"z": 1}
        if cur != "missing":
            d[nm] = cur
        return {"no": d, "dict": {"x": d}, "list": [d]}[deep]

    st, want = P.apply(doc(), [op], g.eq)
    p = lib.JSONPatch([P.to_json(op)]) if g.flag("doc") else build(lib, [op])
    r1 = attempt(p.apply, doc())
    r2 = attempt(p.apply, doc())
    g.trace([st, r1[0]])
    g.require(r1[0] == "ok" and st == P.OK, k + " fails")
    g.require(g.eq(r1[1], want), k + ": another document")
    g.require(g.eq(r2[1], want), k + ": another document the second time")


def wide_variants(g, lib):
    """add, addne and addap at free positions of long arrays and objects."""
    n = g.choice("n", (0, 1, 9, 10, 11, 12))
    arr = g.flag("array")
    t = str(g.int("t", 0, 120)) if g.flag("num") else g.choice("tok", ("-", "01", "-1", "1a", "", "10 "))
    k = g.choice("op", ("add", "addne", "addap"))
    op = {"op": k, "path": ["x", t], "value": g.int("v", 20, 29)}

    def doc():
        return {"x": list(range(n)) if arr else {str(i): i for i in range(n)}}

    st, want = P.apply(doc(), [op], g.eq)
    if st == P.EXT:
        return
    kind, got = attempt(lib.patch.apply, [P.to_json(op)], doc())
    g.trace([st, kind])
    g.require((kind == "ok") == (st == P.OK), k + ": another outcome")
    if st == P.OK:
        g.require(g.eq(got, want), k + ": another document")


def grown(g, lib):
    """A patch extended after it was applied, printed or copied into another
    patch: earlier results, dicts and the other patch do not change."""
    p = lib.JSONPatch([{"op": "add", "path": "/a", "value": {"k": []}}])
    d0 = p.asdicts()
    r0 = p.apply({"z": 0})
    first = g.choice("first", ("apply", "print", "rebuild", "none"))
    q = None
    if first == "apply":
        p.apply({"a": 1})
    elif first == "print":
        p.asdicts()
    elif first == "rebuild":
        q = lib.JSONPatch(p.asdicts())
    k = g.choice("op", EIGHT)
    to = g.choice("to", ("/a", "/z", "/a/k", "/a/k/0", "/a/k/-", ""))
    if k in ("move", "copy"):
        p2 = getattr(p, k)(from_=g.choice("from", ("/z", "/a", "/a/k")), path=to)
    elif k == "remove":
        p2 = p.remove(to)
    else:
        p2 = getattr(p, k)(to, g.choice("v", (7, [])))
    js = p2.asdicts()
    g.trace(js)
    g.require(len(js) == 2, "a builder call adds one operation")
    g.require(g.eq(js[:1], d0), "a builder call changed an earlier operation")
    g.require(g.eq(r0, {"z": 0, "a": {"k": []}}), "extending the patch changed an earlier result")
    if q is not None:
        g.require(g.eq(q.asdicts(), d0), "extending a patch changed another")
    r1 = attempt(p2.apply, {"z": 0})
    r2 = attempt(lib.JSONPatch(js).apply, {"z": 0})
    same_outcome(g, r1, r2, "rebuilt")
    same_outcome(g, r1, attempt(p2.apply, {"z": 0}), "again")
    g.require(g.eq(p2.asdicts(), js), "applying changed the patch")


VALS = lambda g, nm: g.choice(nm, ([], {}, [[]], {"a": []}, {"a": {}}, 7))
VALS3 = lambda g, nm: g.choice(nm, ([], {"a": []}, 7))


def pick(toks, n):
    return lambda g, nm: picked_path(g, nm, n, toks)


SCENARIOS = [
    Scenario("forms1", forms(1, lambda g, nm: free_path(g, nm, 1, 1), ("a", "0"))),
    Scenario("forms2", forms(2, pick(("a", "0"), 1), ("a", "0"), val=lambda g, nm: g.choice(nm, ({"a": []}, 7)))),
    Scenario("forms2-deep", forms(2, pick(("a", "0", "-"), 2), ("a", "0"), 2, 2), tier="thorough"),
    Scenario("reuse1", reuse(1, pick(("a", "0", "-"), 2), ("a", "0"), 1)),
    Scenario("reuse2", reuse(2, pick(("a", "-"), 1), ("a",), 1, ("add", "addne", "addap", "replace", "copy"), VALS3)),
    Scenario("reuse2-into", reuse(2, pick(("a", "0"), 2), ("a",), 1, ("add", "replace", "remove"),
                                  lambda g, nm: g.choice(nm, ([], {}, {"a": {}})))),
    Scenario("reuse3", reuse(3, pick(("a", "0", "-"), 2), ("a", "0"), 2, EIGHT, VALS), tier="thorough"),
    Scenario("variants", variants),
    Scenario("variant-names", variant_names),
    Scenario("names", names),
    Scenario("options", options),
    Scenario("several", several),
    Scenario("falsy", falsy),
    Scenario("wide-variants", wide_variants),
    Scenario("grown", grown),
]
