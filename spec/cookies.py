"""Set-Cookie (RFC 6265 section 5, with the SameSite, Partitioned and name prefix rules of its revision)."""

LONGEST = 400 * 24 * 3600
MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
# cookie-date tokens (section 5.1.1): the numbers, then nothing or something that does not start with a digit
TIME = r"[0-9]{1,2}:[0-9]{1,2}:[0-9]{1,2}"
DAY = r"[0-9]{1,2}"
YEAR = r"[0-9]{2,4}"
DELIMITER = r"[\x09\x20-\x2f\x3b-\x40\x5b-\x60\x7b-\x7e]"


def default_path(path):
    if path == "" or path[0] != "/":
        return "/"
    if path.count("/") < 2:
        return "/"
    return path[: path.rindex("/")]


def split(text):
    """(name, value) of the pair"""
    a, eq, b = text.partition("=")
    if not eq:
        return "", a.strip()
    return a.strip(), b.strip()


def divide(text):
    """(name, value) of an attribute"""
    name, eq, value = text.partition("=")
    return name.strip(), value.strip()


def attribute(name, value, path, now, parse_date, number):
    """(lowercased name, notes, (attribute, value) or None, whether it makes the cookie live too long)"""
    key = name.lower()
    if key == "expires":
        t = parse_date(value)
        if t is None:
            return key, ["SET_COOKIE_BAD_DATE"], None, False
        return key, [], ("Expires", t), now is not None and t > now + LONGEST
    if key == "max-age":
        if value == "":
            return key, ["SET_COOKIE_EMPTY_MAX_AGE"], None, False
        notes = ["SET_COOKIE_LEADING_ZERO_MAX_AGE"] if value[0] == "0" and len(value) > 1 else []
        n = number(value)
        if n is None:
            return key, notes + ["SET_COOKIE_NON_DIGIT_MAX_AGE"], None, False
        return key, notes, ("Max-Age", n), n > LONGEST
    if key == "domain":
        if value == "":
            return key, ["SET_COOKIE_EMPTY_DOMAIN"], None, False
        if value[0] == ".":
            return key, [], ("Domain", value[1:].lower()), False
        return key, [], ("Domain", value.lower()), False
    if key == "path":
        if value == "" or value[0] != "/":
            return key, [], ("Path", default_path(path)), False
        return key, [], ("Path", value), False
    if key == "secure":
        return key, [], ("Secure", ""), False
    if key == "httponly":
        return key, [], ("HttpOnly", ""), False
    if key == "samesite":
        v = value.lower()
        if v == "strict":
            return key, [], ("SameSite", "Strict"), False
        if v == "none":
            return key, [], ("SameSite", "None"), False
        if v == "lax" or v == "":
            return key, [], ("SameSite", "Lax"), False
        return key, ["SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE"], None, False
    if key == "partitioned":
        return key, [], ("Partitioned", ""), False
    if key == "priority":
        return key, ["SET_COOKIE_PRIORITY"], None, False
    if key == "version":
        return key, ["SET_COOKIE_VERSION"], None, False
    return key, ["SET_COOKIE_UNKNOWN_ATTRIBUTE"], None, False


def before(name, value):
    """the notes about name and value"""
    notes = []
    if len(name) + len(value) > 4096:
        notes.append("SET_COOKIE_TOO_LARGE")
    if len(value) > 128:
        notes.append("SET_COOKIE_VALUE_TOO_LARGE")
    return notes


def together(has):
    """the notes about the attributes together; has(name, value): there is such an attribute"""
    notes = []
    secure = has("Secure", "")
    if has("SameSite", "None") and not secure:
        notes.append("SET_COOKIE_NOT_SECURE")
    if has("Partitioned", "") and not secure:
        notes.append("SET_COOKIE_PARTITIONED_NO_SECURE")
    return notes


def prefixes(name, has, domains):
    """the notes about the name's prefix; domains: whether there is a Domain attribute"""
    notes = []
    secure = has("Secure", "")
    low = name.lower()
    if low.startswith("__secure-") and not secure:
        notes.append("SET_COOKIE_PREFIX_SECURE_MISSING")
    if low.startswith("__host-"):
        if not secure:
            notes.append("SET_COOKIE_PREFIX_SECURE_MISSING")
        if not has("Path", "/"):
            notes.append("SET_COOKIE_PREFIX_HOST_BAD_PATH")
        if domains:
            notes.append("SET_COOKIE_PREFIX_HOST_BAD_DOMAIN")
    return notes


def date_token(token, found, time, day, year):
    """what a token of a date is read as: (None, ()) or one of "time", "day", "month", "year" and its numbers

    found: the ones found already; time, day, year: the numbers the token starts with, or None"""
    if "time" not in found and time(token) is not None:
        return "time", time(token)
    if "day" not in found and day(token) is not None:
        return "day", day(token)
    if "month" not in found:
        m = token[:3].lower()
        for i in range(12):
            if m == MONTHS[i]:
                return "month", (i + 1,)
    if "year" not in found and year(token) is not None:
        return "year", year(token)
    return None, ()


def date_value(found, y, mo, d, h, mi, s, days_in, epoch):
    """the date those numbers make, or None"""
    if len(found) < 4:
        return None
    if y >= 70 and y <= 99:
        y = y + 1900
    elif y >= 0 and y <= 69:
        y = y + 2000
    if d < 1 or d > 31 or y < 1601 or h > 23 or mi > 59 or s > 59 or d > days_in(y, mo):
        return None
    return epoch(y, mo, d, h, mi, s)
