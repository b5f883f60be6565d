"""P05: age and lifetimes."""
from .cachelib import SP, execute, gen, from_witness, KEEP  # noqa: F401


def check(c):
    lint, req, v = execute(c)
    if not SP.storable(v)[3]:
        return []
    out = []
    a = SP.age(v)
    if lint.caching.age != a:
        out.append(("age", f"age is {lint.caching.age}, expected {a}"))
    n = [x for x in lint.notes if type(x).__name__ == "CURRENT_AGE"]
    if (len(n) == 1) != (a >= 1):
        out.append(("age-note", f"{len(n)} CURRENT_AGE notes for age {a}"))
    p, s, _ = SP.lifetimes(v)
    if lint.caching.freshness_lifetime_private != p:
        out.append(("private", f"private lifetime {lint.caching.freshness_lifetime_private}, expected {p}"))
    if lint.caching.freshness_lifetime_shared != s:
        out.append(("shared", f"shared lifetime {lint.caching.freshness_lifetime_shared}, expected {s}"))
    return out
