"""Helpers shared by the harnesses."""


def attempt(fn, *a, **k):
    """("ok", result) or ("err", exception)."""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:  # noqa: BLE001 - every class is of interest
        return "err", e


def name(e):
    return type(e).__name__
