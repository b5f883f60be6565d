"""Helpers shared by the oracles."""
import re
import scenario

T0 = 784111777  # Sun, 06 Nov 1994 08:49:37 GMT


def request(headers=(), method="GET", uri="http://example.com/x", **k):
    return dict({"kind": "request", "base_uri": "http://example.com/x", "topline": [method, uri, "1.1"],
                 "headers": [list(h) for h in headers]}, **k)


def response(headers=(), status="200", req=None, **k):
    d = {"kind": "response", "base_uri": "http://example.com/x", "topline": ["1.1", str(status), "OK"],
         "headers": [list(h) for h in headers], "start_time": T0}
    if req is not None:
        d["request"] = req
    d.update(k)
    return d


def lint(sc):
    return scenario.run(sc)[0]


def names(lint, only=None):
    return [type(n).__name__ for n in lint.notes if only is None or type(n).__name__ in only]


def by_name(lint, name):
    return [n for n in lint.notes if type(n).__name__ == name]


def count(lint, name):
    return len(by_name(lint, name))


def diff(key, what, got, want):
    if got == want and type(got) == type(want) or got == want and not isinstance(want, (bool, int)):
        return []
    return [(key, f"{what}: got {str(got)[:300]!s}, expected {str(want)[:300]!s}")]


def randcase(rng, s):
    r = rng.random()
    if r < 0.5:
        return s
    if r < 0.7:
        return s.upper()
    if r < 0.8:
        return s.title()
    return "".join(rng.choice([c.upper(), c.lower()]) for c in s)


TCHAR = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def token(rng, lo=1, hi=8):
    return "".join(rng.choice(TCHAR) for _ in range(rng.randint(lo, hi)))


def qstring(rng, hi=10):
    """(wire form, value)"""
    out, val = [], []
    for _ in range(rng.randint(0, hi)):
        c = rng.choice("ab ,;=\"\\\t'\xe9/<>`(z0")
        if c in "\"\\" or rng.random() < 0.1:
            out.append("\\")
        out.append(c)
        val.append(c)
    return '"' + "".join(out) + '"', "".join(val)


def split_list(v):
    """comma separated elements, quoted strings kept whole (well-formed input)"""
    out, cur, q, esc = [], "", False, False
    for ch in v:
        if q:
            cur += ch
            if esc:
                esc = False
            elif ch == "\\":
                esc = True
            elif ch == '"':
                q = False
        elif ch == ",":
            out.append(cur)
            cur = ""
        else:
            if ch == '"':
                q = True
            cur += ch
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def unquote(s):
    """the value of a token or quoted-string"""
    s = s.strip()
    if len(s) >= 2 and s[0] == s[-1] == '"':
        out, i = "", 1
        while i < len(s) - 1:
            if s[i] == "\\" and i + 1 < len(s) - 1:
                i += 1
            out += s[i]
            i += 1
        return out
    return s
