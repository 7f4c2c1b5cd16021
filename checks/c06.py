"""C06: only the documented error families escape, every call terminates, and
every error can be shown."""
from checks.queries import doc_spec
from checks.util import attempt, name
from se.harness import Scenario

CTX = {"filter_context": {"x": [1, "a"], "y": None, "s": "a(", "d": {"a": 1}}}


def guard(g, fams, label, fn, *a, **k):
    """Run fn; an error must be of a family and have a text."""
    kind, got = attempt(fn, *a, **k)
    if kind == "err":
        if not isinstance(got, fams):
            g.fail(label + ": " + name(got) + " escapes")
        k2, t = attempt(g.text, got)
        g.trace([label, name(got), k2])
        g.require(k2 == "ok", label + ": the error has no text: " + name(t))
    return kind == "ok", got


def drain(q, doc):
    return [(m.obj, m.path, m.parts) for m in q.finditer(doc, **CTX)]


DOCS = (
    [1, "a", None, True, 1.5, [1, [2]], {"a": 1, "b": [1, "a"]}, {"a": {"a": "b"}}, "", [], {}, "(", -1, "a(", ["a"], {"b": None}],
    {"a": 1, "b": "a", "c": None, "d": [True, {"a": "a"}], "e": {"a": [0]}, "": 0, "f": 1.5, "1": "x"},
    5, None, 1.5, False, "abc", "", [], {},
)


def query(g, lib, text, docs=DOCS, env=None):
    env = env or lib.JSONPathEnvironment()
    ok, q = guard(g, lib.JSONPathError, "compile", env.compile, text)
    if not ok:
        return
    n = []
    for d in docs:
        good, r = guard(g, lib.JSONPathError, "evaluate", drain, q, d)
        n.append(len(r) if good else -1)
    g.trace([text, n])


# -- texts -------------------------------------------------------------------

FRAMES = (
    ("", ""), ("$", ""), ("$.", ""), ("$[", "]"), ("$[?", "]"), ("$[?@", "]"), ("$[?@ == ", "]"), ("$[?@ =~ ", "]"), ("$[?@.a in ", "]"), ("$[?count(", ") > 1]"), ("$['", "']"),
    ('$["', '"]'), ("$[?@ == '", "']"), ("$[", ""), ("$[?", ""), ("$[?@ =~ /", "/]"), ("$[1:", "]"), ("$.a | ", ""), ("$..", ""), ("$[?match(@, '", "')]"), ("$[?(", ")]"), ("^", "[?#"),
    ("$[?@.a ", " @.b]"), ("$[?length(@.a", ") == 1]"), ("$[?_", "]"), ("$[?!", "]"), ("$[", ", 1]"), ("$ & ", " | $"), ("$[?isinstance(@", ", 'a')]"), ("$[?@ == -", "]"), ("$[?@ == 1", "]"), ("$[?@ == 'a", "]"), ("$[?@ =~ /a", "]"),
)


def texts(lo, hi, frames=FRAMES, alpha=None):
    def fn(g, lib):
        """Any text within many frames, lone surrogates included."""
        a, b = g.choice("frame", frames)
        t = g.str("t", lo, hi, alpha(g) if alpha else g.ranges((0, 383), (0x660, 0x662), (0x2028, 0x2029), (0xD800, 0xD801), (0xDC00, 0xDC00), (0xFEFF, 0xFEFF), (0x1F600, 0x1F600)))
        query(g, lib, a + t + b, DOCS[:2])

    return fn


CHARS = "$@.[]()?*:,'\"\\/!&|=<>~#_^-+01aeinu "


def chars(g):
    return g.ranges(*[(ord(c), ord(c)) for c in CHARS])


TOKENS = (
    "$", "@", "^", "_", "#", "~", ".", "..", "*", "[", "]", "(", ")", "?", ",", ":", "'a'", '"', "'", "/a/i", "/", "1", "-", "1.5", "-0", "1e9", "1e-2", "00", "a", "count(", "match(", "zz(",
    "==", "<", "=~", "in", "contains", "&&", "||", "!", "and", "or", "not", "true", "null", "undefined", "&", "|", "[1]", "['a']", "[?", "@.a", "<>", "$.a", "\\", "{", "=", "and(", "nil", "1:", "99999999999999999999",
)


def soup(n, heads, tokens, joins=("",), tails=None):
    def fn(g, lib):
        """Sequences of tokens, anywhere."""
        text = head = g.choice("head", heads)
        j = g.choice("join", joins)
        for i in range(n):
            text = text + j + g.choice("t%d" % i, tokens)
        if isinstance(tails, dict):
            text = text + tails.get(head, "")
        query(g, lib, text, DOCS[:3])

    return fn


CLOSED = {"$[?(@.a ": ")]", "$[?((@.a) ": ")]", "$[?@[": "]]", "$[?count(@.a ": ") > 1]", "$[?@ in [1, ": "]]", "$[?!(": ")]", "$[?(@.a == ": ") && @.b]",
          "$['a', ": "]", "$[?@.a && (": ")]", "$[?_.d[": "] == 1]", "$[": "][0]", "$[?(": ") == 1]"}
VALID = ("$.a['b'][?@.c == 1 && count(@..*) > 1]", "$[?match(@.a, 'x') || !(@.b in ['a', 1.5])] | ^.a & $..[1:2, *]", "$[?@ =~ /a+/i && # != _.x]", "$[-1, 'a', ?@.~ == \"b\"]", "$[?length(value($..a)) <= 1e2]", "$[?(@.a<@.b)]", "$[?((@.a)&&!(@.b>1)),0]", "$[?@.a[?(@.b)]==$.x]")


def mutated(n, sub, valid=VALID):
    def fn(g, lib):
        """Valid queries cut short, or with a few characters replaced, lost or added."""
        text = g.choice("q", valid)
        i = g.count("at", 0, len(text))
        how = g.choice("how", ("cut", "head", "lose", "swap", "add"))
        if how == "cut":
            t = text[:i]
        elif how == "head":
            t = text[i:]
        elif how == "lose":
            t = text[:i] + text[i + g.count("k", 1, n):]
        elif how == "swap":
            t = text[:i] + g.choice("c", sub) + text[i + 1:]
        else:
            t = text[:i] + g.choice("c", sub) + text[i:]
        query(g, lib, t, DOCS[:2])

    return fn


# -- operand types ---------------------------------------------------------------

OPS = ("==", "!=", "<", "<=", ">", ">=", "<>", "in", "contains", "=~")
LITS = ("1", "-1.5", "'a'", "''", "null", "true", "undefined", "[1, 'a']", "[]", "/a/", "/(?i)a|/", "#", "_.x", "_.d", "_", "$", "@.a", "@", "^", "count(@.*)", "length(@)", "typeof(@)", "value(@.*)", "1e400", "_.zz", "@[0]", "keys(@)", "_.s")


def operands(spec):
    def fn(g, lib):
        """Every operator between operands of every type."""
        a, b = g.choice("a", LITS), g.choice("b", LITS)
        text = "$[?" + a + " " + g.choice("op", OPS) + " " + b + "]"
        env = lib.JSONPathEnvironment()
        env.function_extensions["keys"] = lib.function_extensions.keys
        query(g, lib, text, [spec(g)] if spec else DOCS, env)

    return fn


def logical(g, lib):
    """Operators between groups and logical values."""
    parts = ("@.a", "(@.a == 1)", "(@.a && @.b)", "!@.a", "!(@.a < 1)", "(@.a)", "match(@.a, 'a')", "isinstance(@.a, 'str')", "true", "(true)", "@.*", "(1)", "count(@.*)", "(@)", "[@]", "(/a/)")
    text = "$[?" + g.choice("a", parts) + " " + g.choice("op", OPS + ("&&", "||")) + " " + g.choice("b", parts) + "]"
    query(g, lib, text)


ARGS = ("@", "@.a", "@.*", "@[0]", "@..*", "1", "'a'", "'('", "null", "true", "1.5", "#", "_.x", "_.s", "$", "^", "[1]", "@.a == 1", "(@.a)", "!@.a", "count(@.*)", "length(@)", "match(@, 'a')", "value(@..*)", "undefined", "/a/", "'[[:a:]'", "'a{99999999999}'",
        "'(?P<a>x)(?P=b)'", "'\\\\'", "@.zz", "_.zz", "_", "'(?z)'")
NAMES = ("count", "length", "value", "match", "search", "isinstance", "is", "typeof", "type", "keys", "nosuch")


def calls(two, typed=True):
    def fn(g, lib):
        """Every function with arguments of every kind and number."""
        f = g.choice("f", NAMES)
        a = g.choice("a", ARGS)
        args = a + (", " + g.choice("b", ARGS) if two else "")
        if not two and g.flag("none"):
            args = ""
        text = g.choice("use", ("$[?%s]", "$[?%s == 1]", "$[?!%s]", "$[?%s in ['a', 1]]", "$[?@[?%s < 'b']]") if not two else ("$[?%s]", "$[?%s == 1]")).replace("%s", f + "(" + args + ")")
        env = lib.JSONPathEnvironment(well_typed=typed)
        env.function_extensions["keys"] = lib.function_extensions.keys
        query(g, lib, text, DOCS, env)

    return fn


def on_documents(g, lib):
    """Functions and comparisons on any value, whatever it is."""
    text = g.choice("q", ("$[?match(@.a, @.b)]", "$[?search(@.a, @.b)]", "$[?@.a =~ @.b]", "$[?@.a in @.b]", "$[?@.a contains @.b]", "$[?@.a < @.b]", "$[?@.a == @.b]", "$[?length(@.a) == @.b]", "$[?isinstance(@.a, @.b)]",
                          "$[?count(@.a) == @.b]", "$[?@.a[@.b]]", "$[?value(@.*) == @.a]", "$[?@.a <> @.b]", "$[?# in @]", "$[?@.a[0] in @.b.a]", "$[?typeof(@.a) == typeof(@.b)]", "$[?@.b[?@ in $.a]]"))
    c = g.Spec(kinds=("null", "true", "int", "float", "str", "list", "dict"), depth=1, width=1, keys=("a",), strs=("a", "(", ""), ints=(0, 1), floats=(2, 2),
               child=g.Spec(kinds=("int", "str", "list"), depth=1, width=0, strs=("a",), ints=(0, 0)))
    v = {"a": g.json("a", c), "b": g.json("b", c)}
    query(g, lib, text, [[v], {"a": v}])


SELECTORS = ("$.a", "$[0]", "$[-1]", "$[1:]", "$[::-1]", "$[::0]", "$.*", "$..*", "$.~", "$..[?@.a]", "$[?@]", "$[?@.a == @.b]", "$[?# == 'a']", "$['a', 0]", "$[?@ in $]", "$.a[?@ == $.b]", "^[?@.a]", "$.*.~", "$..[0, 'a']", "$.a | $.b", "$.* & $..a", "$[?@[?# == @]]", "$.~.a", "$.~[0]", "$.a.~[?@]", "$[?@.*.~]",
             "$[?@.~ == 'a']", "$[9007199254740991]", "$['~a']", "$['#0']", "$.a.b.c")


def selectors(spec):
    def fn(g, lib):
        """Every selector on every document, keys that are odd included."""
        q = g.choice("q", SELECTORS)
        query(g, lib, q, [g.json("doc", spec(g))])

    return fn


def drive(coro):
    """The result of a coroutine that never waits."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("the coroutine waits")


def nest(t, n, inner):
    return t[0] * n + inner + t[1] * n


DEEP = (("[?@", "]", ""), ("[?(", ")]", "@.a"), ("[?!", "]", "@"), ("..[?@", "]", ""), ("[0]", "", ""), (".*", "", ""), ("[?count(@", ") == 1]", ".*"), ("[?@ && (@", ")]", ""), ("[?@ == 1 || ", "]", "@"))


def deep(g, lib):
    """Queries, pointers and documents nested as deep as sixty levels."""
    a, b, inner = g.choice("form", DEEP)
    n = g.choice("n", (3, 20, 60))
    if a.startswith("[?") and a[2] in "(!@" and b in (")]", "]") and a != "[?@":
        text = "$[?" + nest((a[2:], b[:-1]), n, inner) + "]"
    else:
        text = "$" + nest((a, b), n if a[:2] != ".." else 3, inner)
    d = 1
    e = 1
    for _ in range(n):
        d = [d]
        e = {"a": e}
    query(g, lib, text, [d, e])
    if a == "[0]":
        for t in ("/0" * n, "/a" * n):
            for doc in (d, e):
                guard(g, lib.JSONPointerError, "resolve", lambda: lib.JSONPointer(t).resolve(doc))
            guard(g, lib.JSONPatchError, "patch", lambda: lib.JSONPatch().test("", [1]).apply(d))


def entries(g, lib):
    """The other entry points."""
    text = g.choice("q", ("$.a", "$[", "$[?@.a == 1]", "zz(", "$[?zz(@)]", "$[?count(1) == 1]", "$[9999999999999999999]", "$ |", "", "$[?@ =~ /(/]", "$.a | $[?@ in 1]", "$..a & ^", " ", "$ $", "$[01]"))
    doc = g.choice("doc", DOCS[:5])
    how = g.choice("how", ("findall", "finditer", "match", "query", "env.findall", "env.match", "env.query", "async"))
    env = lib.JSONPathEnvironment()

    def go():
        if how == "findall":
            return lib.findall(text, doc)
        if how == "finditer":
            return [m.path for m in lib.finditer(text, doc)]
        if how == "match":
            return lib.match(text, doc)
        if how == "query":
            return list(lib.query(text, doc).limit(2).values())
        if how == "env.findall":
            return env.findall(text, doc)
        if how == "env.match":
            return env.match(text, doc)
        if how == "env.query":
            return list(env.query(text, doc).pointers())
        return drive(env.findall_async(text, doc))

    guard(g, lib.JSONPathError, how, go)


# -- numbers and regular expressions ------------------------------------------------

def numbers(g, lib):
    """Number-like texts of any size."""
    m = g.choice("m", ("0", "1", "00", "9" * 20, "1" * 5000, "-", "1.", ".5", "1.5", "1" * 400 + ".5", "", "0" * 5000, "9007199254740992"))
    t = g.choice("sign", ("", "-", "+", "--")) + m + g.choice("exp", ("", "e", "e1", "E+400", "e-400", "e99999999999999999999", "e-", "e1.5", "e" + "9" * 5000, "e-" + "9" * 5000))
    form = g.choice("form", ("$[%s]", "$[?@ == %s]", "$[?%s > @]", "$[%s:]", "$[:%s]", "$[::%s]", "$[?@ in [%s]]", "$[?@[%s]]", "$.%s", "$[?length(%s) == 1]", "$[0:1:%s]", "%s"))
    query(g, lib, form.replace("%s", t), DOCS[:2])


RX = "()[]{}*+?|\\^$.a1,-<P=:!i"


def regexes(lo, hi, forms=("$[?@ =~ /%s/]", "$[?match(@, '%s')]", '$[?search(@, "%s")]')):
    def fn(g, lib):
        """Regular expressions, mostly invalid ones."""
        t = ""
        for i in range(g.count("n", lo, hi)):
            t = t + g.choice("c%d" % i, RX)
        query(g, lib, g.choice("form", forms).replace("%s", t), [["a", "1", "", "aa", 1, None, ["a"]]])

    return fn


def odd_regexes(g, lib):
    """Regular expressions that fail in unusual ways."""
    t = g.choice("t", ("a{99999999999}", "a{1,99999999999999999999}", "(?P<a>.)(?P<a>.)", "(?<=a+)b", "\\\\x", "\\\\u12", "\\\\U00110000", "\\\\N{x}", "(?P<1>a)", "(?i", "(?iz)a", "a(?i)b", "(?(1)a|b", "(?(2)a)", "[b-a]", "[a", "(" * 99 + ")" * 99, "(" * 120 + ")" * 120,
                       "\\\\1", "\\\\99", "x**", "(?#", "(?P=a)", "(?P>a)", "\\\\8", "[[:alpha:]]", "[a--b]", "(?-i:a)", "(?u)a", "(?L)a", "(?a)(?u)b", "\\\\p{L}", "\\\\400", "{1}", "a{2,1}", "a{,}", "\ud800", "\\\\ud800", "(?x) # c", "[\\\\w-a]", "(?>a)", "a++", "(?s-i:a)", "\x00", "[\\\\", "\\\\", "\n", "\\\\N{DIGIT ONE}"))
    form = g.choice("form", ("$[?@ =~ /%s/]", "$[?@ =~ /%s/ims]", "$[?match(@, '%s')]", "$[?search(@, '%s')]", "$[?@ =~ '%s']"))
    query(g, lib, form.replace("%s", t.replace("\\\\", "\\") if "/" in form else t), [["a", "1", "", "b", 1, "\ud800"]])


# -- pointers ------------------------------------------------------------------------

PDOCS = ({"a": [1, {"b": "x"}], "": {"": 0}, "0": 5, "~a": 1, "#a": 2, "-": 3}, [[0, 1], {"0": "x", "a": None}, "xyz", None], 5, None, True, "abc", "", [], {})


def pointer(lo, hi, frames, alpha=None):
    def fn(g, lib):
        """Any pointer text, with every option, on documents of every type."""
        a, b = g.choice("frame", frames)
        t = a + g.str("t", lo, hi, alpha(g) if alpha else g.ranges((0, 383), (0xD800, 0xD801), (0xDC00, 0xDC00), (0x660, 0x661), (0x1F600, 0x1F600))) + b
        kw = g.choice("kw", ({}, {"uri_decode": True}, {"unicode_escape": False}, {"unicode_escape": False, "uri_decode": True}))
        ok, p = guard(g, lib.JSONPointerError, "JSONPointer", lib.JSONPointer, t, **kw)
        if not ok:
            return
        use_pointer(g, lib, p, PDOCS)
        for d in PDOCS[:2]:
            guard(g, lib.JSONPointerError, "pointer.resolve", lib.pointer.resolve, t, d, **kw)
            guard(g, lib.JSONPointerError, "pointer.resolve", lib.pointer.resolve, t, d, default=1, **kw)

    return fn


def use_pointer(g, lib, p, docs):
    out = []
    for d in docs:
        ok, r = guard(g, lib.JSONPointerResolutionError, "resolve", p.resolve, d)
        out.append(ok)
        guard(g, lib.JSONPointerResolutionError, "resolve_parent", p.resolve_parent, d)
        k, e = attempt(p.exists, d)
        g.require(k == "ok", "exists fails: " + name(e))
        g.require(e == ok, "exists disagrees")
        k, e = attempt(p.resolve, d, default=7)
        g.require(k == "ok", "resolve with a default fails: " + name(e))
    q = p.parent()
    out.append([g.text(p), g.text(q), p.is_relative_to(q), p == q])
    g.trace(out)


def pointer_docs(g, lib):
    """Pointers on any document."""
    t = g.choice("p", ("", "/", "/a", "/0", "/-", "/-1", "/01", "/#0", "/#a", "/~a", "/a/0", "/0/a", "/a/#0", "/0/#a", "/a/b/c", "/a/-", "//", "/#", "/#-1", "/#99999999999999999999", "/~0a", "/#/a", "/a/#/b", "/a/#a/b", "/0/#0/0", "/9007199254740992", "/1e1", "/ 1", "/٣"))
    ok, p = guard(g, lib.JSONPointerError, "JSONPointer", lib.JSONPointer, t)
    if ok:
        use_pointer(g, lib, p, [g.json("doc", doc_spec(g, 2, 1, keys=("a", "0", "#a"), kinds=("null", "true", "int", "str", "list", "dict"), strs=("ab",), ints=(0, 0), root=("null", "true", "int", "float", "list", "dict")))])


BASES = ("", "/a", "/a/0", "/0", "/a/-1", "/a/1", "/a/b/c", "/-", "/a/#0", "/" + "1" * 5000, "/a/" + "9" * 5000, "/9007199254740991", "/a/01")


def relative(lo, hi, frames, alpha=None):
    def fn(g, lib):
        """Any relative pointer text, applied to many pointers."""
        a, b = g.choice("frame", frames)
        t = a + g.str("t", lo, hi, alpha(g) if alpha else g.ranges((0, 383), (0x660, 0x661), (0xD800, 0xD800))) + b
        kw = g.choice("kw", ({}, {"uri_decode": True}, {"unicode_escape": False}))
        fams = (lib.RelativeJSONPointerError, lib.JSONPointerError)
        ok, r = guard(g, fams, "RelativeJSONPointer", lib.RelativeJSONPointer, t, **kw)
        base = g.choice("base", BASES)
        ok2, p = guard(g, fams, "to", lib.JSONPointer(base).to, t, **kw)
        if not ok:
            g.require(not ok2, "to() accepts what RelativeJSONPointer rejects")
            return
        g.text(r)
        guard(g, fams, "RelativeJSONPointer.to", r.to, base, **kw)
        if ok2:
            use_pointer(g, lib, p, PDOCS[:3])

    return fn


def joins(lo, hi):
    def fn(g, lib):
        """Joining pointers with any text."""
        t = g.str("t", lo, hi)
        p = lib.JSONPointer(g.choice("base", ("", "/a", "/0/b")))
        for label, f in (("/", lambda: p / t), ("join", lambda: p.join(t)), ("join2", lambda: p.join("a", t))):
            ok, q = guard(g, lib.JSONPointerError, label, f)
            if ok:
                use_pointer(g, lib, q, PDOCS[:2])
        ok, q = guard(g, lib.JSONPointerError, "from_parts", lib.JSONPointer.from_parts, [t, 0, t])
        if ok:
            use_pointer(g, lib, q, PDOCS[:2])

    return fn


# -- patches -------------------------------------------------------------------------

NAMES_OP = ("add", "addne", "addap", "remove", "replace", "move", "copy", "test", "nosuch", 1, None, ["add"], {}, "")
PATHS = ("", "/a", "/0", "/-", "/a/b", "a", "/a/0", "/a/-", "/-1", "/9007199254740992", "/#0", "/~a", "/#a", 0, None, [], {}, True, "/a/01", "/\\u12", "/0/0", "//", "/1", "/a/b/c", "/" + "1" * 5000, "/a/#a")


def patch_one(spec, paths=PATHS, names=NAMES_OP):
    def fn(g, lib):
        """One operation, members missing or of any type, any document."""
        op = {}
        for k, vals in (("op", names), ("path", paths), ("from", paths)):
            if k == "from" and op.get("op") not in ("move", "copy"):
                continue
            if not g.flag("no_" + k):
                op[k] = g.choice(k, vals)
        if not g.flag("no_value") and op.get("op") not in ("remove", "move", "copy"):
            op["value"] = g.choice("value", (1, None, [1], {"a": 1}))
        doc = g.json("doc", spec(g))
        ok, p = guard(g, lib.JSONPatchError, "JSONPatch", lib.JSONPatch, [op])
        if ok:
            run_patch(g, lib, p, doc)

    return fn


def run_patch(g, lib, p, doc):
    ok, r = guard(g, lib.JSONPatchError, "apply", p.apply, doc)
    g.trace(ok)
    k, r = attempt(p.asdicts)
    g.require(k == "ok", "asdicts fails: " + name(r))


def patch_many(n, spec, paths=PATHS[:7]):
    def fn(g, lib):
        """Several operations, one after the other."""
        ops = []
        for i in range(n):
            op = {"op": g.choice("op%d" % i, NAMES_OP[:8]), "path": g.choice("path%d" % i, paths)}
            if op["op"] in ("move", "copy"):
                op["from"] = g.choice("from%d" % i, paths)
            else:
                op["value"] = g.choice("value%d" % i, (1, {"a": [1]}))
            ops.append(op)
        doc = g.json("doc", spec(g))
        ok, p = guard(g, lib.JSONPatchError, "JSONPatch", lib.JSONPatch, ops)
        if ok:
            run_patch(g, lib, p, doc)

    return fn


def patch_shapes(g, lib):
    """Patches that are no lists of objects; builder methods; texts."""
    ops = g.choice("ops", (5, True, 1.5, {"op": "add"}, {}, [5], [None], [[]], ["add"], [True], [[["op", "add"]]], [{}], [{"op": "add", "path": "/a", "value": 1}, 5], "[5]", "[[]]", "[{}]", "5", "null", "{}", '{"op": 1}', "[null]", '["op"]', "true", '"op"', '[{"op": "add", "path": 1, "value": 1}]', [""], ["op"], ("op",)))
    doc = g.choice("doc", ([], {}, 5, None, "abc", {"a": 1}))
    ok, p = guard(g, lib.JSONPatchError, "JSONPatch", lib.JSONPatch, ops)
    if ok:
        run_patch(g, lib, p, doc)
    guard(g, lib.JSONPatchError, "patch.apply", lib.patch.apply, ops, doc)


def builder(lo, hi):
    def fn(g, lib):
        """Builder methods given any text."""
        t = g.choice("head", ("", "/", "/a/")) + g.str("t", lo, hi)
        p = lib.JSONPatch()
        how = g.choice("how", ("add", "remove", "replace", "test", "move", "copy", "addne", "addap", "move2"))
        if how in ("add", "replace", "test", "addne", "addap"):
            ok, r = guard(g, lib.JSONPatchError, how, getattr(p, how), t, 1)
        elif how == "remove":
            ok, r = guard(g, lib.JSONPatchError, how, p.remove, t)
        elif how == "move2":
            ok, r = guard(g, lib.JSONPatchError, how, p.move, "/a", t)
        else:
            ok, r = guard(g, lib.JSONPatchError, how, getattr(p, how), t, "/a")
        if ok:
            for d in ({"a": [1], "b": {"c": 1}}, [1, [2]], 5, None, "abc"):
                run_patch(g, lib, p, d)

    return fn


ROOTS = ("null", "true", "int", "list", "dict")
D1 = lambda g: doc_spec(g, 1, 1, keys=("a",), kinds=("int", "list", "str"), strs=("x",), ints=(0, 0), root=ROOTS)
D2 = lambda g: doc_spec(g, 2, 1, keys=("a", "b"), kinds=("null", "int", "list", "dict", "str"), strs=("x",), ints=(0, 0), root=ROOTS)
D3 = lambda g: doc_spec(g, 3, 2, keys=("a", "b"), kinds=("null", "int", "list", "dict", "str"), strs=("x", "a"), ints=(0, 1), root=ROOTS)
OPD = lambda g: [g.json("v", g.Spec(kinds=("null", "true", "int", "float", "str", "list", "dict"), depth=1, width=1, keys=("a",), strs=("a", ""), ints=(0, 1), floats=(2, 2), child=g.Spec(kinds=("int", "str"), strs=("a",), ints=(0, 0))))]

PF = (("", ""), ("/", ""), ("/a/", ""), ("/", "/0"), ("/\\u", ""), ("/%", ""), ("/#", ""))
RF = (("", ""), ("0", ""), ("1", ""), ("1+", ""), ("0-", "#"), ("2", "#"), ("0/", ""), ("0+1", ""), ("0" * 5000, ""), ("1" * 5000, ""), ("0+" + "1" * 5000, ""))

SCENARIOS = [
    Scenario("texts", texts(0, 1)),
    Scenario("texts2", texts(2, 2), tier="thorough"),
    Scenario("chars", texts(2, 2, FRAMES[:16:3], chars)),
    Scenario("chars3", texts(3, 3, FRAMES[:8], chars), tier="thorough"),
    Scenario("soup", soup(2, ("", "$", "$[?", "$[?@ == "), TOKENS)),
    Scenario("soup3", soup(3, ("", "$[", "$[?", "$[?@.a "), TOKENS, ("", " ")), tier="thorough"),
    Scenario("closed", soup(1, tuple(CLOSED), TOKENS, ("",), CLOSED)),
    Scenario("closed2", soup(2, ("$[?(@.a ", "$[?@[", "$[?count(@.a ", "$[?(@.a == ", "$[?("), TOKENS, ("",), CLOSED)),
    Scenario("closed2-all", soup(2, tuple(CLOSED), TOKENS, ("", " "), CLOSED), tier="thorough"),
    Scenario("closed3", soup(3, ("$[?(@.a ", "$[?@[", "$[?count(@.a ", "$[?("), TOKENS, (" ",), CLOSED), tier="thorough"),
    Scenario("mutated", mutated(1, "$[]'/(", VALID)),
    Scenario("mutated-all", mutated(4, CHARS), tier="thorough"),
    Scenario("operands", operands(None)),
    Scenario("operands-symbolic", operands(OPD), tier="thorough"),
    Scenario("logical", logical),
    Scenario("calls", calls(False)),
    Scenario("calls2", calls(True)),
    Scenario("calls-untyped", calls(False, False)),
    Scenario("calls2-untyped", calls(True, False), tier="thorough"),
    Scenario("documents", on_documents),
    Scenario("selectors", selectors(D2)),
    Scenario("selectors3", selectors(D3), tier="thorough"),
    Scenario("entries", entries),
    Scenario("deep", deep),
    Scenario("numbers", numbers),
    Scenario("regexes", regexes(1, 2)),
    Scenario("regexes4", regexes(3, 4), tier="thorough"),
    Scenario("odd-regexes", odd_regexes),
    Scenario("pointer", pointer(0, 1, PF)),
    Scenario("pointer3", pointer(2, 3, PF), tier="thorough"),
    Scenario("pointer-documents", pointer_docs),
    Scenario("relative", relative(0, 1, RF)),
    Scenario("relative3", relative(2, 3, RF[:7]), tier="thorough"),
    Scenario("joins", joins(0, 1)),
    Scenario("joins3", joins(2, 3), tier="thorough"),
    Scenario("patch", patch_one(D1)),
    Scenario("patch-documents", patch_one(D3), tier="thorough"),
    Scenario("patches", patch_many(2, lambda g: doc_spec(g, 1, 1, keys=("a",), kinds=("int",), ints=(0, 0), root=("int", "list", "dict")), PATHS[:5])),
    Scenario("patches3", patch_many(3, D1), tier="thorough"),
    Scenario("patch-shapes", patch_shapes),
    Scenario("builder", builder(0, 1)),
    Scenario("builder3", builder(2, 3), tier="thorough"),
]
