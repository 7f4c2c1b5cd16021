"""Generators of patch operations and documents, shared by C05, C15, C20."""
from ref import patch as P

SIX = ("add", "remove", "replace", "move", "copy", "test")


def small(g, depth=1, width=1, klen=1, **kw):
    kw.setdefault("kinds", ("null", "true", "int", "list", "dict"))
    kw.setdefault("ints", (0, 2))
    return g.Spec(depth=depth, width=width, klen=klen, slen=1, **kw)


def value(g, name):
    """A small JSON value to insert or to compare with."""
    return g.json(name, small(g, 1, 1, 1, keys=("k",)))


def free_path(g, name, k, n):
    alpha = g.minus(g.ALPHABET, "\\")
    return [g.str("%s%d" % (name, i), 0, n, alpha) for i in range(g.count(name + "n", 0, k))]


def picked_path(g, name, k, toks):
    return [g.choice("%s%d" % (name, i), toks) for i in range(g.count(name + "n", 0, k))]


def make_op(g, i, path, kinds=SIX, val=None):
    """path(name) -> tokens."""
    k = g.choice("op%d" % i, kinds)
    op = {"op": k, "path": path("p%d_" % i)}
    if k in ("move", "copy"):
        op["from"] = path("f%d_" % i)
    if k not in ("remove", "move", "copy"):
        op["value"] = (val or value)(g, "v%d" % i)
    return op


def show(ops):
    return [[o["op"], list(o["path"])] for o in ops]
