"""Specification of caching (RFC 9111 as P04, P05 and P06 state it).

Plain Python over a `view` of the message, usable on concrete and on symbolic values (a branch
on a symbolic value forks the exploration).  Written from the property statements, not from the
code.  The view offers:

  star            Vary lists "*"
  text(name)      a header line with that (case-insensitive) name was received
  req             a request is known;  req.method (None/""/str), req.text(name), req.time
  cc(name)        the response has that Cache-Control directive;  ccval(name) its (last) value
  age, date, expires, lm, etag   parsed values: None when absent or invalid
  status, time    status code (or None), response time (or None)
"""

CAP = 2**31
CACHEABLE = ("GET", "HEAD")
HEURISTIC = (200, 203, 206, 300, 301, 410)

STORE_NOTES = {
    "STORE_METHOD_UNCACHEABLE", "STORE_NO_STORE", "STORE_PRIVATE_CC", "STORE_PRIVATE_AUTH",
    "STORE_PUBLIC_AUTH", "STORE_STORABLE", "STORE_STORABLE_SHARED_ONLY", "STORE_UNSTORABLE",
}
FRESH_NOTES = {
    "FRESHNESS_NO_CACHE", "FRESHNESS_NO_CACHE_NO_VALIDATOR", "FRESHNESS_FRESH",
    "FRESHNESS_SHARED_PRIVATE", "FRESHNESS_STALE_ALREADY", "FRESHNESS_HEURISTIC", "FRESHNESS_NONE",
}
STALE_NOTES = {
    "STALE_SERVABLE", "STALE_IF_ERROR", "STALE_WHILE_REVALIDATE", "FRESH_MUST_REVALIDATE",
    "STALE_MUST_REVALIDATE", "FRESH_PROXY_REVALIDATE", "STALE_PROXY_REVALIDATE",
}


def is_heuristic(status):
    for s in HEURISTIC:
        if status == s:
            return True
    return False


def storable(v):
    """(private, shared, [storability note names], proceed)"""
    if v.star:
        return False, False, [], False
    if v.req and v.req.method and not (v.req.method == "GET" or v.req.method == "HEAD"):
        return False, False, ["STORE_METHOD_UNCACHEABLE"], False
    if v.cc("no-store"):
        return False, False, ["STORE_NO_STORE"], False
    if v.cc("private"):
        return True, False, ["STORE_PRIVATE_CC"], True
    if v.req and v.req.text("authorization"):
        if v.cc("public") or v.cc("must-revalidate") or v.cc("s-maxage"):
            return True, True, ["STORE_PUBLIC_AUTH"], True
        return True, False, ["STORE_PRIVATE_AUTH"], True
    if v.cc("public") or v.cc("max-age") or v.expires is not None or is_heuristic(v.status):
        return True, True, ["STORE_STORABLE"], True
    if v.cc("s-maxage"):
        return False, True, ["STORE_STORABLE_SHARED_ONLY"], True
    return False, False, ["STORE_UNSTORABLE"], False


def lo(a, b):
    return a if a <= b else b


def trunc(t):
    return int(t)


def age(v, integer=int):
    """the current age"""
    apparent = 0
    if v.time and v.date is not None and v.date > 0:
        d = integer(v.time) - v.date
        if d > 0:
            apparent = d
    a = 0 if v.age is None else lo(v.age, CAP)
    if v.req and v.req.time and v.time:
        a = a + (v.time - v.req.time)
    if a > apparent:
        return a
    return apparent


def lifetimes(v, integer=int):
    """(private, shared, explicit)"""
    explicit = False
    p = s = 0
    if v.text("expires") and v.time:
        explicit = True
        e = 0 if v.expires is None else v.expires
        base = v.date if (v.date is not None and v.date != 0) else integer(v.time)
        p = s = e - base
    if v.cc("max-age"):
        explicit = True
        p = s = lo(v.ccval("max-age"), CAP)
    if v.cc("s-maxage"):
        explicit = True
        s = lo(v.ccval("s-maxage"), CAP)
    return p, s, explicit


def freshness(v, age_, private, shared, explicit):
    """(verdict note, private_status, shared_status, proceed)"""
    fresh, sfresh = private > age_, shared > age_
    if v.cc("no-cache"):
        if v.lm is None and v.etag is None:
            return "FRESHNESS_NO_CACHE_NO_VALIDATOR", None, None, False
        return "FRESHNESS_NO_CACHE", None, None, False
    if explicit:
        if private != shared:
            return ("FRESHNESS_SHARED_PRIVATE", "fresh" if fresh else "stale",
                    "fresh" if sfresh else "stale", True)
        if fresh:
            return "FRESHNESS_FRESH", None, None, True
        return "FRESHNESS_STALE_ALREADY", None, None, True
    if is_heuristic(v.status):
        return "FRESHNESS_HEURISTIC", None, None, True
    return "FRESHNESS_NONE", None, None, True


def stale(v, age_, private, shared, explicit):
    """names of the notes about serving stale content, in order"""
    out = []
    fresh, sfresh = private > age_, shared > age_
    if v.cc("stale-while-revalidate"):
        out.append("STALE_WHILE_REVALIDATE")
    if v.cc("stale-if-error"):
        out.append("STALE_IF_ERROR")
    elif v.cc("must-revalidate"):
        if fresh:
            out.append("FRESH_MUST_REVALIDATE")
        elif explicit:
            out.append("STALE_MUST_REVALIDATE")
    elif v.cc("proxy-revalidate") or v.cc("s-maxage"):
        if sfresh:
            out.append("FRESH_PROXY_REVALIDATE")
        elif explicit:
            out.append("STALE_PROXY_REVALIDATE")
    else:
        out.append("STALE_SERVABLE")
    return out
