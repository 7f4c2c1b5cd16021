"""Relative JSON Pointer (draft-hha-relative-json-pointer-00) reference."""
from ref import pointer as R

REFUSE, LOOSE = "refuse", "loose"


def parse(text):
    """(steps, offset, suffix) or None; suffix is "#" or a JSON Pointer text."""
    n = len(text)
    i = 0
    while i < n and R.is_digit(text[i]):
        i += 1
    if i == 0 or (i > 1 and text[0] == "0"):
        return None
    steps = int(text[:i])
    off = 0
    if i < n and (text[i] == "+" or text[i] == "-"):
        j = i + 1
        while j < n and R.is_digit(text[j]):
            j += 1
        if j == i + 1 or text[i + 1] == "0":
            return None
        off = int(text[i + 1:j])
        if text[i] == "-":
            off = -off
        i = j
    suffix = text[i:]
    if suffix == "#" or R.valid(suffix):
        return steps, off, suffix
    return None


def apply(base, rel):
    """Reference tokens of the result, REFUSE, or LOOSE (not specified)."""
    steps, off, suffix = rel
    if steps > len(base):
        return REFUSE
    toks = list(base[: len(base) - steps])
    if off != 0:
        if not toks:
            return LOOSE
        last = toks[-1]
        if not R.canonical(last):
            return LOOSE
        k = int(last) + off
        if k < 0:
            return REFUSE
        toks[-1] = str(k)
    if suffix == "#":
        if not toks:
            return REFUSE
        toks[-1] = "#" + toks[-1]
        return toks
    return toks + R.tokens(suffix)
