"""C16: Relative JSON Pointers are parsed, printed and applied per the draft."""
from ref import pointer as R
from ref import relative as REL
from checks.util import attempt, name
from se.harness import Scenario


def tok(g, n, hi):
    return g.str(n, 0, hi, g.minus(g.ALPHABET, "\\"))


def parse_print(n, alpha=None):
    def fn(g, lib):
        """Every text of at most n characters: accepted exactly when the draft's
        grammar accepts it (texts with white space or a stray ~ are left open), printed back
        unchanged."""
        s = g.str("s", 0, n, g.minus(g.ALPHABET, "\\") if alpha is None else g.ranges(*alpha))
        rel = REL.parse(s)
        kind, r = attempt(lib.RelativeJSONPointer, s)
        g.trace(kind)
        if rel is None:
            if kind == "ok":
                g.require("~" in s or any([c.isspace() for c in s]), "a text outside the grammar is accepted")
            else:
                g.require(isinstance(r, (lib.RelativeJSONPointerError, lib.JSONPointerError)), "raised " + name(r))
            return
        g.require(kind == "ok", "a relative pointer is rejected")
        g.require(str(r) == s, "printing does not return the text")
        g.require(r == lib.RelativeJSONPointer(str(r)), "not equal to its reparse")

    return fn


def result(g, lib, base, text, ptr, how, ue):
    if how == "to":
        return attempt(ptr.to, text, unicode_escape=ue)
    if how == "rel.to":
        return attempt(lambda: lib.RelativeJSONPointer(text, unicode_escape=ue).to(ptr))
    if how == "rel.to(str)":
        return attempt(lambda: lib.RelativeJSONPointer(text, unicode_escape=ue).to(R.spell(base), unicode_escape=ue))
    if how == "to(rel)":
        return attempt(lambda: ptr.to(lib.RelativeJSONPointer(text, unicode_escape=ue)))
    raise AssertionError(how)


HOWS = ("to", "rel.to", "rel.to(str)", "to(rel)")


def off_range(toks):
    """Whether a token is an index of more than fifteen digits."""
    return any([len(t) > 15 and R.canonical(t) for t in toks])


def judge(g, lib, base, text, how, ue=True, built="text"):
    rel = REL.parse(text)
    if built == "text":
        ptr = lib.JSONPointer(R.spell(base), unicode_escape=ue)
    else:
        ptr = lib.JSONPointer.from_parts(base, unicode_escape=ue)
    want = REL.apply(base, rel)
    if rel[1] != 0 and rel[0] < len(base) and R.negative(base[len(base) - rel[0] - 1]):
        return  # documented negative-index extension
    kind, got = result(g, lib, base, text, ptr, how, ue)
    g.trace([kind, str(got) if kind == "ok" else name(got)])
    if want == REL.REFUSE:
        g.require(kind == "err", "a forbidden application is accepted")
        g.require(isinstance(got, lib.RelativeJSONPointerError), "refused with " + name(got))
        return
    if want == REL.LOOSE:
        if kind == "err":
            g.require(isinstance(got, lib.RelativeJSONPointerError), "refused with " + name(got))
        else:
            plain = REL.apply(base, (rel[0], 0, rel[2]))
            g.require(plain != REL.REFUSE, "a forbidden application is accepted")
            g.require(str(got) == R.spell(plain), "an offset changes a token that is not an index")
        return
    if off_range(want) and kind == "err":
        g.require(isinstance(got, (lib.RelativeJSONPointerError, lib.JSONPointerError)), "refused with " + name(got))
        return  # an index beyond the supported range
    g.require(kind == "ok", "a valid application fails: " + name(got))
    g.require(str(got) == R.spell(want), "the resulting pointer is another one")
    if off_range(want):
        return
    g.require(got == lib.JSONPointer(R.spell(want), unicode_escape=False), "result is not equal to its text")
    g.require(ptr == lib.JSONPointer(R.spell(base), unicode_escape=False), "the base pointer changed")


def applied(kb, nb, ks, ns, off):
    def fn(g, lib):
        """Free base tokens, step count, offset and suffix."""
        base = [tok(g, "b%d" % i, nb) for i in range(g.count("kb", 0, kb))]
        text = str(g.int("steps", 0, kb + 1))
        if off:
            o = g.int("off", 1, off)
            text = text + ("+" if g.flag("plus") else "-") + str(o)
        if g.flag("hash"):
            text += "#"
        else:
            text += R.spell([tok(g, "s%d" % i, ns) for i in range(g.count("ks", 0, ks))])
        judge(g, lib, base, text, g.choice("how", HOWS))

    return fn


def offsets(hi):
    def fn(g, lib):
        """Index arithmetic: any index and offset of up to four digits."""
        i = g.int("index", 0, hi)
        o = g.int("off", 1, hi)
        base = ["a", str(i)]
        text = "0" + ("+" if g.flag("plus") else "-") + str(o)
        text += g.choice("suffix", ("", "#", "/x", "/0"))
        judge(g, lib, base, text, g.choice("how", HOWS), built=g.choice("built", ("text", "parts")))

    return fn


def climbing(g, lib):
    """Offsets applied after any number of steps, to index tokens of one or two
    digits and to others, with suffixes."""
    n = g.count("n", 1, 3)
    base = []
    steps = g.count("steps", 0, n)
    for i in range(n):
        if i == n - 1 - steps and g.flag("free"):
            base.append(str(g.int("index", 0, 12)))
        else:
            base.append(g.choice("t%d" % (i % 2), ("1", "a")))
    how = g.choice("how", HOWS)
    o = g.choice("off", (1, 2, 9, 10, 12))
    text = str(steps) + ("+" if g.flag("plus") else "-") + str(o) + g.choice("suffix", ("", "#", "/0"))
    judge(g, lib, base, text, how, built="parts" if how == "to" else "text")


def long_offsets(g, lib):
    """Indices and offsets of up to thirty digits, printed and applied exactly."""
    o = g.choice("lead", ("1", "20")) + g.choice("zeros", ("", "0" * 8, "0" * 13, "9" * 16, "0" * 17, "123456789" * 3)) + str(g.int("o", 0, 9))
    i = g.choice("i", ("0", "9", "1000000000", "799999999999995"))
    text = "0" + ("+" if g.flag("plus") else "-") + o + g.choice("suffix", ("", "#"))
    kind, r = attempt(lib.RelativeJSONPointer, text)
    if kind == "err":
        g.fail("a relative pointer is rejected: " + name(r))
    g.require(str(r) == text, "printing does not return the text")
    g.require(r == lib.RelativeJSONPointer(str(r)), "not equal to its reparse")
    judge(g, lib, ["a", i], text, g.choice("how", HOWS[:2]))


def deep_steps(g, lib):
    """Step counts of one and two digits against bases of up to twelve tokens."""
    n = g.count("n", 0, 12)
    base = ["k%d" % i for i in range(n)]
    text = str(g.int("steps", 0, 14)) + g.choice("suffix", ("", "#", "/z"))
    judge(g, lib, base, text, g.choice("how", HOWS))


def index_forms(g, lib):
    """Final tokens that look like, but are not, array indices."""
    t = g.str("t", 1, 3, g.ranges((43, 57), (32, 32), (95, 95), (0x660, 0x669), (0xFF10, 0xFF19)))
    g.assume(not R.negative(t))
    base = ["a", t]
    text = "0" + g.choice("off", ("+1", "-1", "+10"))
    judge(g, lib, base, text, g.choice("how", ("to", "rel.to")), built=g.choice("built", ("text", "parts")))


def no_escape(g, lib):
    """With escape decoding off, backslashes are ordinary characters."""
    base = [g.str("b%d" % i, 0, 2 - i) for i in range(g.count("kb", 0, 2))]
    text = str(g.int("steps", 0, 2))
    if g.flag("hash"):
        text += "#"
    else:
        text += R.spell([g.str("s%d" % i, 0, 1) for i in range(g.count("ks", 0, 1))])
    judge(g, lib, base, text, g.choice("how", HOWS[:3]), ue=False)


def long_names(g, lib):
    """A base name and suffix with backslashes are not decoded a second time."""
    b = g.choice("b", ("\\n", "\\u0041", "a\\", "\\\\", "\\/", "%41", "caf\u00e9", "\u263a", "\U0001f600"))
    s = g.str("s", 0, 2, g.minus(g.ALPHABET, "\\"))
    text = g.choice("steps", ("0", "1")) + R.spell([s])
    ptr = lib.JSONPointer(R.spell(["x", b]), unicode_escape=False)
    rel = REL.parse(text)
    kind, got = attempt(ptr.to, text)
    g.trace(kind)
    g.require(kind == "ok", "application fails: " + name(got))
    g.require(str(got) == R.spell(REL.apply(["x", b], rel)), "the resulting pointer is another one")


SCENARIOS = [
    Scenario("parse-print4", parse_print(4)),
    Scenario("parse-print-digits", parse_print(6, ((43, 57), (35, 35)))),
    Scenario("parse-print6", parse_print(6), tier="thorough"),
    Scenario("applied", applied(2, 1, 1, 1, 0)),
    Scenario("applied-offset", applied(2, 1, 0, 1, 12)),
    Scenario("applied-offset2", applied(2, 2, 1, 1, 12), tier="thorough"),
    Scenario("applied3", applied(3, 2, 2, 2, 120), tier="thorough"),
    Scenario("offsets", offsets(1200)),
    Scenario("climbing", climbing),
    Scenario("long-offsets", long_offsets),
    Scenario("deep-steps", deep_steps),
    Scenario("index-forms", index_forms),
    Scenario("no-escape", no_escape),
    Scenario("long-names", long_names),
]
