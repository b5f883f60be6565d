"""The comma-separated elements of a list-based field value (RFC 9110, Section 5.6.1).

Commas divide, except within a quoted-string. A quote that does not start a quoted-string (there is no closing
quote, or it contains a character that a quoted-string can't) stands for itself. White space around elements is
dropped, and then so are empty ones.
"""


def qdtext(c):
    return c in "\t !" or "#" <= c <= "[" or "]" <= c <= "~" or "\x80" <= c <= "\xff"


def quoted_char(c):
    return c in "\t " or "!" <= c <= "~" or "\x80" <= c <= "\xff"


def quoted_string(v, i):
    """the index after the quoted-string starting at i, or None"""
    j = i + 1
    while j < len(v):
        c = v[j]
        if c == '"':
            return j + 1
        if c == "\\":
            j += 1
            if j == len(v) or not quoted_char(v[j]):
                return None
        elif not qdtext(c):
            return None
        j += 1
    return None


def elements(v):
    out, start, i = [], 0, 0
    while i < len(v):
        if v[i] == ",":
            out.append(v[start:i])
            start = i = i + 1
            continue
        i = (v[i] == '"' and quoted_string(v, i)) or i + 1
    out.append(v[start:])
    return [x.strip() for x in out if x.strip()]
