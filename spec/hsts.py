"""Strict-Transport-Security (RFC 6797, Section 6.1; hstspreload.org's minimum)."""
from spec.ranges import decimal

MIN_AGE = 1536000
INITIAL = {"max-age": None, "includesubdomains": False, "preload": False}
INVALIDATING = {"HSTS_DUPLICATE_DIRECTIVE", "HSTS_BAD_MAX_AGE", "HSTS_VALUE_NOT_ALLOWED"}
VERDICTS = {"HSTS_VALID", "HSTS_INVALID"}


def trailing(value):
    return ";" in value and value.endswith(";")


def step(seen, directive, unquote):
    """Effect of one directive: (name or None, {key: value}, note or None), given whether its name came before."""
    if directive == "":
        return None, {}, None
    name, eq, value = directive.partition("=")
    name = name.strip().lower()
    if seen(name):
        return None, {}, "HSTS_DUPLICATE_DIRECTIVE"
    if name == "max-age":
        n = decimal(unquote(value.strip())) if eq else None
        if n is None:
            return name, {}, "HSTS_BAD_MAX_AGE"
        return name, {"max-age": n}, None
    if name == "includesubdomains" or name == "preload":
        key = "preload" if name == "preload" else "includesubdomains"
        return name, {key: True}, "HSTS_VALUE_NOT_ALLOWED" if eq else None
    return name, {}, None


def parse(value, unquote):
    """(policy, notes): the fold of step over the directives"""
    pol, notes, seen = dict(INITIAL), [], set()
    parts = [d.strip() for d in value.split(";")]
    if len(parts) > 1 and parts[-1] == "":
        parts.pop()
        notes.append("HSTS_TRAILING_SEMICOLON")
    for d in parts:
        name, ch, note = step(lambda n: n in seen, d, unquote)
        if name is not None:
            seen.add(name)
        pol.update(ch)
        if note:
            notes.append(note)
    return pol, notes


def judge(pol, invalidated, bad_max_age, over_http, status):
    """(valid, advice notes); invalidated: some parsing note is of an invalidating kind"""
    age, sub, pre = pol["max-age"], pol["includesubdomains"], pol["preload"]
    out, valid = [], True
    if pre:
        suitable = sub and age is not None and age >= MIN_AGE
        out.append("HSTS_PRELOAD" if suitable else "HSTS_PRELOAD_NOT_SUITABLE")
    else:
        out.append("HSTS_NO_PRELOAD")
    if age is None:
        valid = False
        if not bad_max_age:
            out.append("HSTS_NO_MAX_AGE")
    elif age == 0:
        out.append("HSTS_MAX_AGE_ZERO")
    elif age < MIN_AGE:
        out.append("HSTS_SHORT_MAX_AGE")
    out.append("HSTS_SUBDOMAINS" if sub else "HSTS_NO_SUBDOMAINS")
    if over_http and (status is None or status != 301):
        out.append("HSTS_OVER_HTTP")
        valid = False
    if invalidated:
        valid = False
    return valid, out
