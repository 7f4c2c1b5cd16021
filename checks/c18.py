"""C18: the command-line tool is a faithful front end to the library."""
import json

from checks.util import attempt, name
from se.harness import Scenario


def run(g, lib, argv, stdin, files, out, as_module=False):
    """Run json ARGV; out: name of the output file, "-" or None."""
    args = list(argv)
    if out is not None:
        args += ["-o", "-" if out == "-" else g.file(out)]
    main = g.script("jsonpath.__main__") if as_module else lib.cli.main
    return g.cli(main, args, stdin, files)


def check(g, lib, what, r, want, out, pretty, debug=False):
    """r: the command's Result; want: attempt() of the library call."""
    kind, v = want
    g.trace([what, kind, r.kind, r.code])
    if kind == "ok":
        g.require(r.kind == "exit", what + ": a traceback for what the library accepts")
        g.require(r.code == 0, what + ": exit status of a success")
        g.require(not g.joined(r.err), what + ": a message for a success")
        written = r.out
        if out is not None and out != "-":
            g.require(not g.joined(r.out), what + ": writes to standard output as well")
            g.require(out in r.files, what + ": output file not written")
            written = r.files[out]
        ok, val, kw = g.written(written)
        g.require(ok == "ok", what + ": output is not one JSON text")
        g.require(g.serialised(val, written, v), what + ": output is another value")
        if kw is not None:
            ind = kw.get("indent")
            if not pretty:
                g.require(ind is None, what + ": indented without --pretty")
            elif isinstance(v, (list, dict)) and len(v) > 0:
                g.require(ind is not None, what + ": not indented with --pretty")
        return
    g.require(not g.joined(r.out), what + ": output for what the library rejects: " + name(v))
    if debug and r.kind == "traceback":
        return
    g.require(r.kind == "exit", what + ": a traceback for what the library rejects: " + name(v))
    g.require(r.code == 1, what + ": exit status of a failure: " + name(v))
    msg = g.joined(r.err)
    g.require(len(msg) > 0, what + ": no message: " + name(v))
    if msg[-1] == "\n":
        msg = msg[:-1]
    g.require(len(msg) > 0, what + ": no message: " + name(v))
    g.require("\n" not in msg, what + ": message of several lines: " + name(v))
    g.require("\r" not in msg, what + ": message of several lines: " + name(v))


def options(g, names):
    """Which of the options are given."""
    return [n for n in names if g.flag(n)]


def io(g, doc, outs=(None, "-", "out"), ins=("stdin", "-", "file")):
    """(arguments, stdin, files) of a document, the output, the mode it is read in."""
    out = g.choice("out", outs)
    i = g.choice("in", ins)
    # the output may replace an older, longer file
    files = {"old": ("text", "[%s]" % ("0, " * 200))} if out == "old" else {}
    if i == "file":
        files["doc"] = doc
        return ["-f", g.file("doc")], ("text", ""), files, out, "rb"
    return ([] if i == "stdin" else ["-f", "-"]), doc, files, out, "r" if i == "stdin" else "rb"


def data(g, doc, mode):
    """What a library call is given for a document file."""
    kind, v = doc
    if kind == "json":
        return g.json_file(v)
    return g.content_file(doc, mode)


BLANK = " \t\n\r"


def expression(g, text, flags, frm, files, outer=""):
    """The arguments that give an expression; outer: what a file may have around it."""
    short, long, fshort, flong = flags
    how = g.choice("from", frm)
    if how == "inline":
        if len(text) > 0 and text[0] == "-":
            return [long + "=" + text]
        return [g.choice("flag", (short, long)) if len(frm) > 2 else short, text]
    if outer:
        g.assume(text == text.strip(outer))
    # a text file: line endings are translated, and the last one does not belong to the text
    g.assume("\r" not in text)
    if len(text) > 0:
        g.assume(text[-1] != "\n")
    files["expr"] = ("text", text + "\n" if how == "line" else text)
    return [fshort, g.file("expr")]


# -- path ----------------------------------------------------------------


PATH_OPTS = ("--pretty", "--debug", "--no-unicode-escape", "--no-type-checks")
FROM = ("inline", "file", "line")
OUTS = (None, "-", "out")
INS = ("stdin", "-", "file")


def path(g, lib, text, doc, opts=PATH_OPTS, frm=FROM, outs=OUTS, ins=INS, as_module=False):
    on = options(g, opts)
    args, stdin, files, out, mode = io(g, doc, outs, ins)
    pre = [o for o in on if o != "--no-type-checks"]
    post = [o for o in on if o == "--no-type-checks"]
    q = expression(g, text, ("-q", "--query", "-r", "--path-file"), frm, files, BLANK)

    def want():
        env = lib.JSONPathEnvironment(unicode_escape="--no-unicode-escape" not in on,
                                      well_typed="--no-type-checks" not in on)
        return env.compile(text).findall(data(g, doc, mode))

    w = attempt(want)
    r = run(g, lib, pre + ["path"] + q + args + post, stdin, files, out, as_module)
    check(g, lib, "path", r, w, out, "--pretty" in on, "--debug" in on)


def path_options(queries, docs, **kw):
    def fn(g, lib):
        """All options x a set of queries x documents."""
        path(g, lib, g.choice("q", queries), g.choice("doc", docs), **kw)

    return fn


QUERIES = (
    "$", "$.a", "$..*", "$['\\u0061']", "$[?@.a > 1]", "$[?count(@) > 1]", "$[?nosuch(@.a)]", "$[?length(@.*) > 1]", "$[99999999999999999999]",
    "$[", "", "$.a[?@.b =~ /(/]", "$['\n", "$[?match(@.b, '(')]", "$ | $.a", "$[?@ == '\n", "$.\n\n!", "$[?length(@.a) == 'a\nb' == 1]", "$[?count('\n')]",
)
DOCS = (
    ("text", '{"a": [1, {"b": "x"}], "c": null}'), ("text", "[]"), ("text", '"abc"'), ("text", '"[1]"'), ("text", " 5"),
    ("text", "{"), ("text", "abc"), ("text", ""), ("bytes", b'"\xff"'), ("bytes", b"\xef\xbb\xbf[1]"), ("text", "[" * 100000), ("text", "1" * 5000),
    ("text", '{"b": 1, "a": [1.5, 1e5, true, -0, "\\u00e9\u00e9\\ud800"]}'), ("text", "[" * 100 + "]" * 100), ("bytes", "[1]".encode("utf-16")),
)


def path_text(lo, hi, frames, opts=("--no-type-checks",), frm=FROM, alpha=None):
    def fn(g, lib):
        """Any query text."""
        a, b = g.choice("frame", frames)
        t = a + g.str("t", lo, hi, alpha(g) if alpha else g.ALPHABET) + b
        path(g, lib, t, ("text", '{"a": [1, {"b": "x"}], "c": null, "\\n": 1}'), opts=opts, frm=frm, outs=(None,), ins=("file",))

    return fn


def path_doc(queries, depth, width):
    def fn(g, lib):
        """Any document."""
        d = g.json("d", g.Spec(depth=depth, width=width, ints=(0, 9), klen=1, slen=1))
        path(g, lib, g.choice("q", queries), ("json", d), opts=("--pretty",), frm=("inline",), outs=(None,), ins=("file",))

    return fn


# -- pointer -------------------------------------------------------------

POINTER_OPTS = ("--pretty", "--debug", "--no-unicode-escape", "-u")


def pointer(g, lib, text, doc, opts=POINTER_OPTS, frm=FROM, outs=OUTS, ins=INS, as_module=False):
    on = options(g, opts)
    args, stdin, files, out, mode = io(g, doc, outs, ins)
    pre = [o for o in on if o != "-u"]
    post = [o for o in on if o == "-u"]
    q = expression(g, text, ("-p", "--pointer", "-r", "--pointer-file"), frm, files)
    w = attempt(lambda: lib.pointer.resolve(text, data(g, doc, mode), unicode_escape="--no-unicode-escape" not in on,
                                            uri_decode="-u" in on))
    r = run(g, lib, pre + ["pointer"] + q + args + post, stdin, files, out, as_module)
    check(g, lib, "pointer", r, w, out, "--pretty" in on, "--debug" in on)


def pointer_options(pointers, docs, **kw):
    def fn(g, lib):
        """All options x a set of pointers x documents."""
        pointer(g, lib, g.choice("p", pointers), g.choice("doc", docs), **kw)

    return fn


POINTERS = (
    "", "/a", "/a/0", "/a/1/b", "/nosuch", "/a/-", "/a/9", "/a/x", "a", "/c/x", "/\\u0061", "/%61", "/\n", "/a\nb", "/a/b\nc", "/~2", "/~", "/a ", " /a", "/\\ud800",
    "/\\u12", "/a/99999999999999999999", "/%", "/a/01", "/#a", "/a/#1", "x\ny", "-",
)


def pointer_text(lo, hi, frames, opts=("--no-unicode-escape", "-u"), frm=FROM, alpha=None):
    def fn(g, lib):
        """Any pointer text."""
        a, b = g.choice("frame", frames)
        t = a + g.str("t", lo, hi, alpha(g) if alpha else g.ALPHABET) + b
        pointer(g, lib, t, ("text", '{"a": [1, {"b": "x"}], "c": null, "\\n": 1, "a ": 2, " ": 3, "": {"": 4}, "%": 5}'), opts=opts, frm=frm, outs=(None,), ins=("file",))

    return fn


def pointer_doc(pointers, depth, width):
    def fn(g, lib):
        """Any document."""
        d = g.json("d", g.Spec(depth=depth, width=width, ints=(0, 9), klen=1, slen=1))
        pointer(g, lib, g.choice("p", pointers), ("json", d), opts=("--pretty",), frm=("inline",), outs=(None,), ins=("file",))

    return fn


# -- patch ---------------------------------------------------------------

PATCH_OPTS = ("--pretty", "--debug", "--no-unicode-escape", "-u")


def patch(g, lib, ops, doc, opts=PATCH_OPTS, outs=OUTS, ins=INS, as_module=False):
    on = options(g, opts)
    args, stdin, files, out, mode = io(g, doc, outs, ins)
    pre = [o for o in on if o != "-u"]
    post = [o for o in on if o == "-u"]
    files["patch"] = ops

    def want():
        return lib.patch.apply(data(g, ops, "rb"), data(g, doc, mode), unicode_escape="--no-unicode-escape" not in on,
                               uri_decode="-u" in on)

    w = attempt(want)
    if w[0] == "ok":
        kind, top = attempt(lambda: ops[1] if ops[0] == "json" else json.load(g.content_file(ops)))
        if kind == "ok" and not isinstance(top, list):
            w = "err", ValueError("not an array")  # no patch
    r = run(g, lib, pre + ["patch", g.file("patch")] + args + post, stdin, files, out, as_module)
    check(g, lib, "patch", r, w, out, "--pretty" in on, "--debug" in on)


def patch_options(patches, docs, **kw):
    def fn(g, lib):
        """All options x a set of patches x documents."""
        patch(g, lib, g.choice("p", patches), g.choice("doc", docs), **kw)

    return fn


def T(t):
    return ("text", t)


PATCHES = (
    T("[]"), T('[{"op": "add", "path": "/x", "value": [1, {}]}]'), T('[{"op": "remove", "path": "/a/0"}, {"op": "test", "path": "/a/0/b", "value": "x"}]'),
    T('[{"op": "replace", "path": "", "value": "abc"}]'), T('[{"op": "test", "path": "/a", "value": 5}]'), T('[{"op": "remove", "path": "/nosuch\\nx"}]'),
    T('[{"op": "move", "from": "/a\\nb", "path": "/c"}]'), T('[{"op": "copy", "from": "/%61", "path": "/\\\\u0062"}]'), T('[{"op": "x\\ny", "path": ""}]'), T('[{"op": "add", "path": "x\\ny", "value": 1}]'),
    T('[5]'), T('[{"path": "/a"}]'), T('[{"op": "add", "path": "/a/9", "value": 1}]'), T('[{"op": "remove", "path": ""}]'), T('{}'), T('5'), T('"[]"'), T(''), T('{'), ("bytes", b'"\xff"'),
    T("[" * 100000), T('[{"op": "addne", "path": "/a/9", "value": 1}]'), T('[{"op": 5, "path": "/a"}]'), T('[{"op": "add", "path": 5, "value": 1}]'), T('[{"op": "add", "path": "/a"}]'), ("bytes", b"\xef\xbb\xbf[]"),
    T('[{"op": "copy", "from": "/a/x\\ny", "path": ""}]'), T('[{"op": "test", "path": "/x\\ny", "value": 1}]'), T('[{"op": "replace", "path": "/a/x\\ny", "value": 1}]'), T('[{"op": "add", "path": "/a/x\\ny", "value": 1}]'),
    T('[{"op": "add", "path": "/a\\\\u12", "value": 1}]'),
)


def patch_text(lo, hi, frames, opts=("--no-unicode-escape", "-u"), alpha=None):
    def fn(g, lib):
        """Any pointer text in an operation."""
        op = g.choice("op", frames)
        t = g.str("t", lo, hi, alpha(g) if alpha else g.ALPHABET)
        ops = [{k: (t if v == "T" else "/" + t if v == "/T" else v) for k, v in o.items()} for o in op]
        patch(g, lib, ("json", ops), ("text", '{"a": [1, {"b": "x"}], "c": null, "\\n": 1, "%": 5}'), opts=opts, outs=(None,), ins=("file",))

    return fn


def patch_doc(patches, depth, width):
    def fn(g, lib):
        """Any document."""
        d = g.json("d", g.Spec(depth=depth, width=width, ints=(0, 9), klen=1, slen=1))
        patch(g, lib, g.choice("p", patches), ("json", d), opts=("--pretty",), outs=(None,), ins=("file",))

    return fn


FALSY = (T('{"a": null, "b": false, "c": 0, "d": "", "e": [], "f": {}, "g": 0.0, "h": true, "i": 1e999}'.replace("1e999", "-1.5")),)


def falsy(g, lib):
    """Results that are null, false, zero or empty, alone and in lists."""
    k = g.choice("command", ("path", "pointer", "patch"))
    m = g.choice("member", "abcdefgh")
    kw = {"opts": ("--pretty",), "outs": (None, "out"), "ins": ("file",)}
    if k == "path":
        path(g, lib, g.choice("q", ("$.", "$.nosuch.", "$..")) + m, FALSY[0], frm=("inline",), **kw)
    elif k == "pointer":
        pointer(g, lib, "/" + m, FALSY[0], frm=("inline",), **kw)
    else:
        patch(g, lib, T('[{"op": "%s", "from": "/%s", "path": ""}]' % (g.choice("op", ("copy", "move")), m)), FALSY[0], **kw)


def wide(g, lib):
    """Long documents and results."""
    n = g.choice("n", (0, 1, 2, 9, 10, 11, 13))
    kind = g.choice("kind", ("list", "dict", "rev"))
    d = list(range(n)) if kind == "list" else {str(i): [i] for i in (range(n) if kind == "dict" else range(n - 1, -1, -1))}
    k = g.choice("command", ("path", "pointer", "patch"))
    at = str(g.int("at", 0, 13))
    kw = {"opts": ("--pretty",), "outs": (None,), "ins": ("file",)}
    if k == "path":
        path(g, lib, g.choice("q", ("$.*", "$[::-1]", "$..*", "$[%s]" % at, "$['%s']" % at)), ("json", d), frm=("inline",), **kw)
    elif k == "pointer":
        pointer(g, lib, g.choice("p", ("", "/" + at)), ("json", d), frm=("inline",), **kw)
    else:
        patch(g, lib, ("json", [{"op": g.choice("op", ("add", "replace")), "path": "/" + at, "value": [at]}]), ("json", d), **kw)


def rewritten(g, lib):
    """The output file exists and is longer than the output."""
    k = g.choice("command", ("path", "pointer", "patch"))
    kw = {"opts": ("--pretty",), "outs": ("old",), "ins": ("file", "stdin")}
    if k == "path":
        path(g, lib, g.choice("q", ("$.a", "$", "$[")), DOCS[0], frm=("inline",), **kw)
    elif k == "pointer":
        pointer(g, lib, g.choice("p", ("/a", "/nosuch")), DOCS[0], frm=("inline",), **kw)
    else:
        patch(g, lib, g.choice("p", PATCHES[1:2] + PATCHES[4:5]), DOCS[0], **kw)


class Named:
    """A generator whose choices have other names."""

    def __init__(self, g, prefix):
        self.g = g
        self.prefix = prefix

    def __getattr__(self, a):
        return getattr(self.g, a)

    def flag(self, n):
        return self.g.flag(self.prefix + n)

    def choice(self, n, seq):
        return self.g.choice(self.prefix + n, seq)


def again(g, lib):
    """A command does not depend on the commands that ran before it."""
    kw = {"outs": (None,), "ins": ("file",)}
    gen = g
    for i in range(2):
        g = Named(gen, "first " if i == 0 else "second ")
        k = g.choice("command", ("path", "pointer", "patch"))
        if k == "path":
            path(g, lib, ("$[?count(@) > 1]", "$[?@.b == '\\u0078']")[i], DOCS[0], opts=("--no-unicode-escape", "--no-type-checks"), frm=("inline",), **kw)
        elif k == "pointer":
            pointer(g, lib, "/%61" if g.flag("uri") else "/\\u0061", DOCS[0], opts=("--no-unicode-escape", "-u"), frm=("inline",), **kw)
        else:
            patch(g, lib, PATCHES[7] if g.flag("copy") else PATCHES[1], DOCS[0], opts=("--no-unicode-escape", "-u"), **kw)


FRAMES = (("$", ""), ("", ""), ("$.", ""), ("$['", "']"), ("$[?@ == '", "']"))
ODD = lambda g: g.ranges((0, 383), (0x2028, 0x2029), (0x3000, 0x3000))
OPS = (
    [{"op": "add", "path": "/T", "value": 1}], [{"op": "remove", "path": "T"}], [{"op": "T", "path": ""}], [{"op": "copy", "from": "/T", "path": ""}],
    [{"op": "test", "path": "/T", "value": "x"}], [{"op": "move", "from": "/a", "path": "/T"}],
)
ONE = {"outs": (None,), "ins": ("file",)}
LINE = {"frm": ("inline", "line"), **ONE}
DEEP = (T("[" * 3000 + "]" * 3000),)
SCENARIOS = [
    # every option combination, input and output for a success and a failure
    Scenario("path-io", path_options(("$.a", "$["), DOCS[:1])),
    Scenario("pointer-io", pointer_options(("/a", "/nosuch"), DOCS[:1])),
    Scenario("patch-io", patch_options(PATCHES[1:2] + PATCHES[4:5], DOCS[:1])),
    Scenario("path-m", path_options(("$.a", "$["), DOCS[:1], opts=("--debug",), as_module=True)),
    Scenario("pointer-m", pointer_options(("/a", "/nosuch"), DOCS[:1], opts=("--debug",), as_module=True)),
    Scenario("patch-m", patch_options(PATCHES[1:2] + PATCHES[4:5], DOCS[:1], opts=("--debug",), as_module=True)),
    # every option combination for many expressions
    Scenario("path-exprs", path_options(QUERIES, DOCS[:1], **LINE)),
    Scenario("pointer-exprs", pointer_options(POINTERS, DOCS[:1], **LINE)),
    Scenario("patch-exprs", patch_options(PATCHES, DOCS[:1], **ONE)),
    # many documents, each way to read and write them
    Scenario("path-docs", path_options(("$", "$..[?length(@) == 1]"), DOCS, opts=("--pretty", "--debug"), frm=("inline",))),
    Scenario("pointer-docs", pointer_options(("", "/0"), DOCS, opts=("--pretty", "--debug"), frm=("inline",))),
    Scenario("patch-docs", patch_options((T("[]"), T('[{"op": "add", "path": "/0", "value": {"x": [1, 2]}}]')), DOCS, opts=("--pretty", "--debug"))),
    Scenario("path-deep", path_options(("$", "$[0]", "$[?@[0]]"), DEEP, opts=("--debug",), frm=("inline",))),
    Scenario("pointer-deep", pointer_options(("", "/0/0/0", "/0/0/a"), DEEP, opts=("--debug",), frm=("inline",))),
    Scenario("patch-deep", patch_options((T("[]"), T('[{"op": "add", "path": "/0/0", "value": 1}]')), DEEP, opts=("--debug",))),
    # any text
    Scenario("path-text", path_text(0, 1, FRAMES, alpha=ODD)),
    Scenario("pointer-text", pointer_text(0, 1, (("/", ""), ("", ""), ("/a/", "")), alpha=ODD)),
    Scenario("patch-text", patch_text(0, 1, OPS, alpha=ODD)),
    # any document
    Scenario("path-doc", path_doc(("$", "$[?@.a]"), 1, 2)),
    Scenario("pointer-doc", pointer_doc(("", "/a", "/0"), 1, 2)),
    Scenario("patch-doc", patch_doc((T("[]"), T('[{"op": "add", "path": "/0", "value": {"x": [1, 2]}}]'), T('[{"op": "remove", "path": "/a"}]')), 1, 2)),
    Scenario("falsy", falsy),
    Scenario("wide", wide),
    Scenario("rewritten", rewritten),
    Scenario("again", again),
    Scenario("path-options", path_options(QUERIES, DOCS[:1]), tier="thorough"),
    Scenario("pointer-options", pointer_options(POINTERS, DOCS[:1]), tier="thorough"),
    Scenario("patch-options", patch_options(PATCHES, DOCS[:1]), tier="thorough"),
    Scenario("path-text-2", path_text(0, 2, FRAMES, frm=("inline", "line")), tier="thorough"),
    Scenario("pointer-text-3", pointer_text(0, 3, (("/", ""), ("", ""), ("/a/", "")), frm=("inline", "line")), tier="thorough"),
    Scenario("patch-text-3", patch_text(0, 3, OPS), tier="thorough"),
    Scenario("path-doc-2", path_doc(("$", "$.*", "$[?@.a]", "$..a"), 2, 2), tier="thorough"),
    Scenario("pointer-doc-2", pointer_doc(("", "/a", "/0", "/a/0"), 2, 2), tier="thorough"),
    Scenario("patch-doc-2", patch_doc((T("[]"), T('[{"op": "add", "path": "/0", "value": {"x": [1, 2]}}]'), T('[{"op": "remove", "path": "/a"}]')), 2, 2), tier="thorough"),
]
