"""Range (RFC 9110, Section 14.2), Content-Range (14.4), Age (RFC 9111, 5.1), Content-Length (8.6)."""

RANGE_NOTES = {"RANGE_BAD_SYNTAX", "RANGE_INVALID"}
CR_NOTES = {"CONTENT_RANGE_MEANINGLESS", "CONTENT_RANGE_MISSING_UNIT", "CONTENT_RANGE_INVALID_ASTERISK",
            "CONTENT_RANGE_MISSING_SLASH", "RANGE_MISSING_HYPHEN", "RANGE_INVALID_INTEGER", "RANGE_INVALID",
            "CONTENT_RANGE_UNSATISFIED_BAD_SC", "CONTENT_RANGE_UNKNOWN_LENGTH"}
REJECT = {"CONTENT_RANGE_MISSING_UNIT", "CONTENT_RANGE_INVALID_ASTERISK", "CONTENT_RANGE_MISSING_SLASH",
          "RANGE_MISSING_HYPHEN", "RANGE_INVALID_INTEGER"}


def decimal(s):
    """the number 1*DIGIT denotes, or None"""
    if s.isascii() and s.isdigit():
        try:
            return int(s)
        except ValueError:  # more digits than can be converted
            return None
    return None


def one_range(spec):
    """('bad',) or (first or None, last or None)"""
    if "-" not in spec:
        return ("bad",)
    first, _, last = spec.partition("-")
    a = b = None
    if first:
        a = decimal(first)
        if a is None:
            return ("bad",)
    if last:
        b = decimal(last)
        if b is None:
            return ("bad",)
    if a is None and b is None:
        return ("bad",)
    return (a, b)


def inverted(r):
    a, b = r
    if a is None or b is None:
        return False
    return a > b


def content_range(value, is_response, status):
    """(None or (unit, first, last, total), notes)"""
    notes = []
    if is_response and (status is None or (status != 206 and status != 416)):
        notes.append("CONTENT_RANGE_MEANINGLESS")
    if " " not in value:
        notes.append("CONTENT_RANGE_MISSING_UNIT" if "/" in value else "CONTENT_RANGE_MISSING_SLASH")
        return None, notes
    unit, _, rest = value.partition(" ")
    if "/" not in rest:
        notes.append("CONTENT_RANGE_MISSING_SLASH")
        return None, notes
    rng, _, total = rest.partition("/")
    if rng == "*" and total == "*":
        notes.append("CONTENT_RANGE_INVALID_ASTERISK")
        return None, notes
    if total == "*":
        notes.append("CONTENT_RANGE_UNKNOWN_LENGTH")
        n = None
    else:
        n = decimal(total)
        if n is None:
            notes.append("RANGE_INVALID_INTEGER")
            return None, notes
    if rng == "*":
        if is_response and status is not None and status == 206:
            notes.append("CONTENT_RANGE_UNSATISFIED_BAD_SC")
        return (unit, None, None, n), notes
    if "-" not in rng:
        notes.append("RANGE_MISSING_HYPHEN")
        return None, notes
    first, _, last = rng.partition("-")
    a = decimal(first)
    if a is None:
        notes.append("RANGE_INVALID_INTEGER")
        return None, notes
    b = decimal(last)
    if b is None:
        notes.append("RANGE_INVALID_INTEGER")
        return None, notes
    if a > b:
        notes.append("RANGE_INVALID")
    if n is not None and b >= n:
        notes.append("RANGE_INVALID")
    return (unit, a, b, n), notes


def age(value):
    """(value or None, notes)"""
    neg = value.startswith("-")
    n = decimal(value[1:]) if neg else decimal(value)
    if n is None:
        return None, ["AGE_NOT_INT"]
    if neg and n != 0:
        return None, ["AGE_NEGATIVE"]
    if n > 2**31:
        return n, ["AGE_LARGE"]
    return n, []


def content_length(value):
    n = decimal(value)
    if n is None:
        return None, ["CL_BAD_SYNTAX"]
    if n > 2**63 - 1:
        return n, ["CL_TOO_LARGE"]
    return n, []
