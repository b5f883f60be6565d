"""P15: Set-Cookie."""
import re
import common as C
from spec import cookies as SP
from spec import dates

NOTES = {"SET_COOKIE_" + x for x in (
    "NO_NAME BAD_DATE EMPTY_MAX_AGE LEADING_ZERO_MAX_AGE NON_DIGIT_MAX_AGE EMPTY_DOMAIN NOT_SECURE UNKNOWN_ATTRIBUTE PRIORITY VERSION "
    "UNKNOWN_ATTRIBUTE_VALUE PARTITIONED_NO_SECURE TOO_LARGE VALUE_TOO_LARGE LIFETIME_TOO_LONG PREFIX_SECURE_MISSING "
    "PREFIX_HOST_BAD_DOMAIN PREFIX_HOST_BAD_PATH ATTRIBUTE_DUP HARDENED NAME_DUP").split()}
ONCE = {"SET_COOKIE_HARDENED", "SET_COOKIE_NAME_DUP"}
NAMES = ["Expires", "Max-Age", "Domain", "Path", "Secure", "HttpOnly", "SameSite", "Partitioned", "Priority", "Version", "X", ""]
DATES = ["Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994", "06 Nov 2020 8:9:7", "1994 Nov 6 08:49:37",
         "31 Feb 2020 00:00:00", "29 feb 2019 0:0:0", "29 Feb 2020 00:00:00", "06 Nov 1600 08:49:37", "06 Nov 1601 08:49:37", "06 Nov 69 08:49:37",
         "06 Nov 70 08:49:37", "06 Nov 1994 24:00:00", "06 Nov 1994 23:60:00", "06 Nov 1994 23:59:60", "00 Nov 1994 00:00:00", "32 Nov 1994 00:00:00",
         "06 November 1994 08:49:37.5", "6th Nov 1994th 08:49:37x", "08:49:371 6 Nov 1994 08:49:37", "123 6 Nov 1994 1:1:1", "x", "", "6 Nov 12345 1:1:1 1995",
         "Nov 6 19941 94 1:1:1", "06 Nov 9999 23:59:59", "6;Nov", "6 Nov 100 1:1:1", "31 Jan 1996 23:59:59", "1 Mar 2100 0:0:0", "29 Feb 2100 0:0:0",
         "29 Feb 2000 0:0:0", "30 Apr 1995 00:00:00", "31 Apr 1995 00:00:00"]
VALUES = {"expires": DATES, "max-age": ["", "0", "00", "1", "012", "34560000", "34560001", "-1", "a", "1a", "9" * 30, "9" * 5000, "\xb2", "1.0"],
          "domain": ["", ".", "example.com", ".Example.com", "..x"], "path": ["", "/", "x", "/a/b", "a/b", "//"],
          "samesite": ["", "strict", "Lax", "NONE", "x"]}
BASES = ["http://example.com/foo/bar", "http://example.com", "http://example.com/", "http://example.com/a", "http://example.com/a/b/", "a/b/c", "", "http://[",
         "http://example.com//x", "x:y/z/w", "/", "?", "/a/b?c/d"]


def attr(rng, now):
    n = rng.choice(NAMES) if rng.random() < 0.9 else C.token(rng)
    vs = VALUES.get(n.lower(), ["", "x", " y "])
    v = rng.choice(vs)
    if n == "Expires" and rng.random() < 0.4:
        v = date(rng)
    if n == "Expires" and rng.random() < 0.2 and now:
        import time
        v = time.strftime("%d %b %Y %H:%M:%S", time.gmtime(now + SP.LONGEST + rng.choice([-1, 0, 1])))
    n = C.randcase(rng, n)
    ws = lambda: rng.choice(["", "", "", " ", "\t"])
    return ws() + n + ws() + (("=" + ws() + v) if v or rng.random() < 0.3 else "") + ws()


def date(rng):
    tok = lambda: rng.choice(["%d" % rng.randint(0, 40), "%02d" % rng.randint(0, 99), "%d" % rng.randint(100, 12000), rng.choice(SP.MONTHS).title(),
                              "%d:%d:%d" % (rng.randint(0, 24), rng.randint(0, 60), rng.randint(0, 61)), "x", "1x", "GMT"])
    return rng.choice([" ", "-", ", ", ","]).join(tok() for _ in range(rng.randint(3, 7)))


def gen(rng):
    now = rng.choice([C.T0, 0, None, 1.5e9, C.T0 + 0.5])
    lines = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        name = rng.choice(["a", "b", "", "__Secure-a", "__Host-a", "__HOST-b", "__secure-", "x" * 4000, "__Hos"])
        value = rng.choice(["1", "", "a=b", "y" * 127, "y" * 128, "y" * 129, "z" * 96, "z" * 97, " q "])
        pair = rng.choice(["%s=%s", "%s=%s", "%s=%s", " %s = %s ", "%s%s"]) % (name, value)
        lines.append(";".join([pair] + [attr(rng, now) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]) + rng.choice(["", "", ";", "; "]))
    return {"lines": lines, "base": rng.choice(BASES), "now": now}


def directed():
    for b in BASES:
        yield {"lines": ["a=1; path", "b=2; Path=x", "c=3; Path=/"], "base": b, "now": C.T0}
    for n in VALUES:
        for v in VALUES[n]:
            for now in (C.T0, 0, None):
                yield {"lines": [f"a=1; {n}={v}"], "base": BASES[0], "now": now}
                yield {"lines": [f"__Host-a=1; {n}={v}; Secure", f"a=1; {n}={v}; {n}={v}"], "base": BASES[0], "now": now}
    for n in ("__Secure-a", "__Host-a", "a"):
        for i in range(32):
            on = [x for j, x in enumerate(["Secure", "Path=/", "Domain=x", "SameSite=None", "Partitioned"]) if i >> j & 1]
            yield {"lines": ["; ".join([n + "=1"] + on)], "base": BASES[0], "now": C.T0}
    for i in range(8):
        on = [x for j, x in enumerate(["Secure", "HttpOnly", "SameSite=" + ["Lax", "None", "Strict"][i % 3]]) if i >> j & 1]
        yield {"lines": ["; ".join(["a=1"] + on), "a=2", "b=3"], "base": BASES[0], "now": C.T0}


def numbers(pat):
    r = re.compile(r"(%s)(?:[^0-9]|\Z)" % pat)

    def f(t):
        m = r.match(t)
        return m and tuple(int(x) for x in m.group(1).split(":"))

    return f


def parse_date(text):
    got = {}
    for t in re.split(SP.DELIMITER, text):
        kind, ns = SP.date_token(t, got, numbers(SP.TIME), numbers(SP.DAY), numbers(SP.YEAR))
        if kind:
            got[kind] = ns
    if len(got) < 4:
        return None
    return SP.date_value(got, got["year"][0], got["month"][0], got["day"][0], *got["time"], dates.days_in, dates.epoch)


def number(v):
    return int(v) if v.isascii() and v.isdigit() and len(v) <= 4300 else None


def uri_path(base):
    from urllib.parse import urlsplit
    try:
        return urlsplit(base).path
    except ValueError:
        return ""


def cookie(line, base, now):
    line = line.strip()
    parts = line.split(";")
    name, value = SP.split(parts[0])
    if name == "" and value == "":
        return None, ["SET_COOKIE_NO_NAME"]
    notes = SP.before(name, value)
    attrs, seen, long = [], set(), False
    if parts[-1] == "":
        parts.pop()
    for p in parts[1:]:
        key, ns, kept, much = SP.attribute(*SP.divide(p), uri_path(base), now, parse_date, number)
        if key in seen:
            notes.append("SET_COOKIE_ATTRIBUTE_DUP")
        seen.add(key)
        notes += ns
        if kept:
            attrs.append(kept)
        if much and not long:
            notes.append("SET_COOKIE_LIFETIME_TOO_LONG")
            long = True
    has = lambda n, v: (n, v) in attrs
    notes += SP.together(has) + SP.prefixes(name, has, any(n == "Domain" for n, _ in attrs))
    return (name, value, attrs), notes


def check(case):
    lines = [C.strip(x) if hasattr(C, "strip") else x for x in case["lines"]]
    lint = C.lint(C.response([["Set-Cookie", x] for x in lines], base_uri=case["base"], start_time=case["now"]))
    want, cs = [], []
    for x in lines:
        c, ns = cookie(x, case["base"], case["now"])
        want += ns
        if c:
            cs.append(c)
    if len({c[0] for c in cs}) < len(cs):
        want.append("SET_COOKIE_NAME_DUP")
    if any(("Secure", "") in a and ("HttpOnly", "") in a and (("SameSite", "Strict") in a or ("SameSite", "Lax") in a) for _, _, a in cs):
        want.append("SET_COOKIE_HARDENED")
    got = lint.headers.parsed.get("set-cookie")
    what = f"{lines} under {case['base']!r} at {case['now']}"
    return (C.diff("cookies", f"cookies of {what}", got, cs)
            + C.diff("notes", f"notes of {what}", sorted(set(C.names(lint, NOTES))) if False else merge(C.names(lint, NOTES)), merge(want)))


def merge(ns):
    """a prefix note for several Domain attributes of one cookie is one judgement"""
    return sorted(n for n in ns if n != "SET_COOKIE_PREFIX_HOST_BAD_DOMAIN") + sorted({n for n in ns if n == "SET_COOKIE_PREFIX_HOST_BAD_DOMAIN"})


def from_witness(w):
    if w is None:
        return []
    if "attribute" in w:
        out = []
        for pre in ("", "SameSite=None; ", w["attribute"].split("=")[0] + ";", "Max-Age=99999999;"):
            out.append({"lines": ["a=1; " + pre + w["attribute"]], "base": w.get("base", BASES[0]), "now": w.get("now", C.T0)})
        return out
    if "line" in w:
        return [{"lines": [w["line"]], "base": w.get("base", BASES[0]), "now": w.get("now", C.T0)}]
    if "lines" in w:
        return [{"lines": w["lines"], "base": BASES[0], "now": C.T0}]
    return []
