"""P04: storability verdict."""
from .cachelib import SP, execute, gen, names, from_witness, KEEP  # noqa: F401


def check(c):
    lint, req, v = execute(c)
    p, s, want, _ = SP.storable(v)
    out = []
    if (bool(lint.caching.store_private), bool(lint.caching.store_shared)) != (p, s):
        out.append(("flags", f"store_private/shared are {lint.caching.store_private}/{lint.caching.store_shared}, "
                             f"expected {p}/{s}"))
    got = names(lint, SP.STORE_NOTES)
    if req is not None:
        got = names(req, SP.STORE_NOTES) + got
    if got != want:
        out.append(("note", f"storability notes {got}, expected {want}"))
    return out
