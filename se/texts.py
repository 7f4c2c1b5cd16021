"""JSON text and readable files as abstract stand-ins for a symbolic document."""
from __future__ import annotations

from .values import Sym


class JsonText(Sym):
    """A str whose content is some JSON text of the given value."""

    __slots__ = ("v", "kw")
    __class__ = property(lambda self: str)

    def __init__(self, v, kw=None):
        self.v = v
        self.kw = kw or {}

    def __json_value__(self):
        from .hooks import sym_deepcopy

        return sym_deepcopy(self.v, {})

    def __getattr__(self, name):
        from .engine import Cut

        if name.startswith("__"):
            raise AttributeError(name)
        raise Cut("json-text." + name)

    def strip(self, *a):
        return self

    def decode(self, *a):
        return self

    encode = decode

    lstrip = rstrip = strip


class JsonFile:
    def __init__(self, v):
        self.v = v
        self.done = False

    @property
    def __class__(self):
        import io

        return io.StringIO

    def read(self, *a):
        if self.done:
            return ""
        self.done = True
        return JsonText(self.v)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
