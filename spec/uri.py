"""Request targets (RFC 3986, RFC 3987 section 3.1)."""

DELIMS = ":/?#@"


def percent(text):
    """non-ASCII characters percent-encoded"""
    return "".join(c if ord(c) < 128 else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in text)


def host_span(text):
    """where the host name of `scheme://[userinfo@]host...` is, or None"""
    scheme, sep, rest = text.partition("://")
    if not sep or not scheme or any(c in scheme for c in ":/?#"):
        return None
    n = min([rest.find(c) for c in "/?#" if c in rest], default=len(rest))
    at = rest[:n].find("@") + 1
    colon = rest.find(":", at, n)
    if "@" in rest[at:n]:
        n = rest.find("@", at)
        colon = rest.find(":", at, n)
    start = len(scheme) + 3
    return start + at, start + (n if colon < 0 else colon)


def convert(text):
    """the URI for a text, None if it cannot be converted"""
    if all(ord(c) < 128 for c in text):
        return text
    span = host_span(text)
    try:
        if span is not None:
            host = text[span[0]:span[1]]
            if not all(ord(c) < 128 for c in host):
                ascii_host = host.encode("idna").decode("ascii")
                if any(c in ascii_host for c in DELIMS):
                    return None
                return percent(text[:span[0]]) + ascii_host + percent(text[span[1]:])
        return percent(text)
    except UnicodeError:
        return None


def judge(uri, converted, grammatical, limit=8000):
    """the notes for a target, and the URI recorded"""
    notes = []
    if not converted or not grammatical:
        notes.append("URI_BAD_SYNTAX")
    kept = uri.partition("#")[0]
    if len(kept) > limit:
        notes.append("URI_TOO_LONG")
    return kept, notes
