"""Cache-Control (RFC 9111, Section 5.2; RFC 5861; RFC 8246; the pre-check and post-check extensions)."""

# name: (allowed in requests, allowed in responses, kind)
DIRECTIVES = {
    "immutable": (False, True, "flag"),
    "max-age": (True, True, "delta"),
    "max-stale": (True, False, "delta"),
    "min-fresh": (True, False, "delta"),
    "must-revalidate": (False, True, "flag"),
    "must-understand": (False, True, "flag"),
    "no-cache": (True, True, "names"),
    "no-store": (True, True, "flag"),
    "no-transform": (True, True, "flag"),
    "only-if-cached": (True, False, "flag"),
    "private": (False, True, "names"),
    "proxy-revalidate": (False, True, "flag"),
    "public": (False, True, "flag"),
    "s-maxage": (False, True, "delta"),
    "stale-if-error": (False, True, "delta"),
    "stale-while-revalidate": (False, True, "delta"),
    "pre-check": (False, True, "delta"),
    "post-check": (False, True, "delta"),
}
_WEAKER = ["immutable", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"]
_MID = _WEAKER + ["max-age", "must-revalidate", "proxy-revalidate", "s-maxage"]
OVERRIDES = [
    ("no-store", _MID + ["no-cache", "private", "public"]),
    ("no-cache", _MID),
    ("must-revalidate", _WEAKER),
]
NOTES = {"CC_MISCAP", "CC_SHOULD_NOT_HAVE_VALUE", "CC_BAD_VALUE_TYPE", "CC_MAX_AGE_TOO_LARGE", "CC_DUP",
         "CC_CONFLICTING", "CC_WRONG_MESSAGE", "CHECK_SINGLE", "CHECK_ALL_ZERO", "CHECK_POST_BIGGER",
         "CHECK_POST_ZERO", "CHECK_POST_PRE"}
PARSE_NOTES = {"CC_MISCAP", "CC_SHOULD_NOT_HAVE_VALUE", "CC_BAD_VALUE_TYPE", "CC_MAX_AGE_TOO_LARGE"}
CHECK_NOTES = {n for n in NOTES if n.startswith("CHECK_")}


def as_int(v):
    """the integer a delta value denotes, or None"""
    if v is None:
        return None
    try:
        return int(v)
    except ValueError:
        return None


def kind(lname):
    for k in DIRECTIVES:
        if lname == k:
            return DIRECTIVES[k][2]
    return "unknown"


def parse(element, unquote, as_int):
    """(pair or None, notes)"""
    if "=" in element:
        name, _, val = element.partition("=")
    else:
        name, val = element, None
    low = name.lower()
    notes = []
    if name != low:
        notes.append("CC_MISCAP")
    k = kind(low)
    if k == "flag" and val is not None:
        notes.append("CC_SHOULD_NOT_HAVE_VALUE")
    if k == "delta":
        n = as_int(val)
        if n is None:
            notes.append("CC_BAD_VALUE_TYPE")
            return None, notes
        if n > 2**31:
            notes.append("CC_MAX_AGE_TOO_LARGE")
        return (low, n), notes
    if k == "names" and val is not None:
        return (low, unquote(val)), notes
    return (low, val), notes


def conflict(mtype, has):
    """the directive reported as overriding others, or None"""
    if mtype != "response":
        return None
    for d, others in OVERRIDES:
        if has(d) and any([has(o) for o in others]):
            return d
    return None


def directive_note(mtype, name, count):
    """the note for one distinct directive name, or None"""
    for k in DIRECTIVES:
        if name == k:
            if mtype == "request" and not DIRECTIVES[k][0]:
                return "CC_WRONG_MESSAGE"
            if mtype == "response" and not DIRECTIVES[k][1]:
                return "CC_WRONG_MESSAGE"
            return "CC_DUP" if count > 1 else None
    return None


def check_note(has, value):
    pre, post = has("pre-check"), has("post-check")
    if not pre and not post:
        return None
    if not pre or not post:
        return "CHECK_SINGLE"
    a, b = value("pre-check"), value("post-check")
    if a == 0 and b == 0:
        return "CHECK_ALL_ZERO"
    if b > a:
        return "CHECK_POST_BIGGER"
    if b == 0:
        return "CHECK_POST_ZERO"
    return "CHECK_POST_PRE"
