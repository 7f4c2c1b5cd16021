"""The alphabet of symbolic characters and character predicates as range sets."""
from __future__ import annotations

from . import terms as T

ALPHABET = T.rs_norm([
    (0x00, 0x17F), (0x660, 0x669), (0x2028, 0x2029), (0x3000, 0x3000),
    (0xFEFF, 0xFEFF), (0xFF10, 0xFF19), (0x1F600, 0x1F60F),
])
SURROGATES = ((0xD800, 0xD801), (0xDC00, 0xDC01))
ALPHABET_S = T.rs_norm(ALPHABET + SURROGATES)
ALL = ALPHABET_S
ALL_LIST = [c for lo, hi in ALL for c in range(lo, hi + 1)]
ASCII_DIGIT = ((48, 57),)

_cache = {}


def rs_pred(key, pred):
    """Range set of alphabet characters for which pred(chr) holds."""
    r = _cache.get(key)
    if r is None:
        r = _cache[key] = T.rs_vals([c for c in ALL_LIST if pred(chr(c))])
    return r


def in_pred(c, key, pred):
    if type(c) is int:
        return bool(pred(chr(c)))
    return T.b_in(c, rs_pred(key, pred))


_map_cache = {}


def char_map(c, key, fn):
    """Term for a per-character mapping (1:1); None where not 1:1."""
    if type(c) is int:
        r = fn(chr(c))
        return [ord(x) for x in r]
    tab = _map_cache.get(key)
    if tab is None:
        groups = {}
        multi = []
        for a in ALL_LIST:
            r = fn(chr(a))
            if len(r) == 1:
                groups.setdefault(ord(r) - a, []).append(a)
            else:
                multi.append(a)
        tab = _map_cache[key] = (
            [(d, T.rs_vals(v)) for d, v in groups.items()], T.rs_vals(multi))
    return tab
