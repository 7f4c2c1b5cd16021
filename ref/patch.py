"""RFC 6902 reference (works in place on its own copy of the document)."""
from ref import pointer as R

OK, FAIL, TEST, EXT = "ok", "fail", "test", "ext"


class Fail(Exception):
    def __init__(self, kind):
        Exception.__init__(self, kind)
        self.kind = kind


def clone(v):
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def parent_of(doc, toks):
    st, p = R.resolve(doc, toks[:-1])
    if st == R.EXT:
        raise Fail(EXT)
    if st == R.FAIL:
        raise Fail(FAIL)
    if not isinstance(p, (dict, list)):
        raise Fail(FAIL)
    return p


def get(doc, toks):
    if not toks:
        return doc
    p = parent_of(doc, toks)
    t = toks[-1]
    if isinstance(p, dict):
        if t in p:
            return p[t]
        raise Fail(FAIL)
    if R.canonical(t) and R.number(t) < len(p):
        return p[int(t)]
    raise Fail(FAIL)


def add(doc, toks, value, op="add"):
    if not toks:
        return value
    p = parent_of(doc, toks)
    t = toks[-1]
    if isinstance(p, dict):
        if op == "addne" and t in p:
            return doc
        p[t] = value
        return doc
    if t == "-":
        p.append(value)
        return doc
    if R.canonical(t):
        n = R.number(t)
        if n <= len(p):
            p.insert(n, value)
            return doc
        if op == "addap":
            p.append(value)
            return doc
        raise Fail(FAIL)
    if op == "addap":
        raise Fail(EXT)
    raise Fail(FAIL)


def remove(doc, toks):
    if not toks:
        raise Fail(FAIL)  # the root cannot be removed (there would be no document)
    get(doc, toks)
    p = parent_of(doc, toks)
    if isinstance(p, dict):
        del p[toks[-1]]
    else:
        del p[int(toks[-1])]
    return doc


def replace(doc, toks, value):
    if not toks:
        return value
    get(doc, toks)
    p = parent_of(doc, toks)
    if isinstance(p, dict):
        p[toks[-1]] = value
    else:
        p[int(toks[-1])] = value
    return doc


def prefix(a, b):
    """a is a proper prefix of b."""
    if len(a) >= len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            return False
    return True


def step(doc, op, eq):
    """op: {"op", "path": tokens, "from": tokens, "value"}."""
    k = op["op"]
    path = op["path"]
    if k in ("add", "addne", "addap"):
        return add(doc, path, clone(op["value"]), k)
    if k == "remove":
        return remove(doc, path)
    if k == "replace":
        return replace(doc, path, clone(op["value"]))
    if k == "move":
        src = op["from"]
        if prefix(src, path):
            raise Fail(FAIL)
        v = get(doc, src)
        if not src:
            return doc  # from == path == root
        doc = remove(doc, src)
        return add(doc, path, v)
    if k == "copy":
        return add(doc, path, clone(get(doc, op["from"])))
    if k == "test":
        if not eq(get(doc, path), op["value"]):
            raise Fail(TEST)
        return doc
    raise AssertionError(k)


def apply(doc, ops, eq):
    """-> (status, document)"""
    try:
        for op in ops:
            doc = step(doc, op, eq)
    except Fail as e:
        return e.kind, None
    return OK, doc


def to_json(op):
    out = {"op": op["op"]}
    if "from" in op:
        out["from"] = R.spell(op["from"])
    out["path"] = R.spell(op["path"])
    if "value" in op:
        out["value"] = op["value"]
    return out
