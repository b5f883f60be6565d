"""P23: field grammars."""
import importlib
import re
import common as C
import corpus
from httplint.field.list_field import HttpListField
from httplint.field.utils import RE_FLAGS
from spec import grammar as GR

FIELDS = {}
for _n, _c in corpus.field_classes().items():
    if getattr(_c, "syntax", None) and isinstance(getattr(_c, "canonical_name", None), str):
        _lst = issubclass(_c, HttpListField)
        _t = GR.of_field(_c.canonical_name, _lst)
        if _t is not None:
            FIELDS[_c.canonical_name] = (_c, _lst, _t)
NAMES = sorted(FIELDS)
CHARS = [chr(i) for i in range(256) if i not in (10, 13)]
NEAR = list(" \t,;=\"\\/*()<>:@[]'-.%?#0aZWw~\x0b\x1f\x7f\x80\xa0\xff")


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(s))
        r = rng.random()
        c = rng.choice(NEAR) if rng.random() < 0.7 else rng.choice(CHARS)
        if r < 0.35:
            s = s[:i] + c + s[i:]
        elif r < 0.6:
            s = s[:i] + s[i + 1:]
        elif r < 0.85:
            s = s[:i] + c + s[i + 1:]
        elif r < 0.93:
            s = s.swapcase()
        else:
            s = s + s[:i]
    return s


def gen(rng):
    n = rng.choice(NAMES)
    s = GR.generate(rng, FIELDS[n][2], rng.choice([4, 12, 40]))
    if rng.random() < 0.6:
        s = mutate(rng, s)
    return {"field": n, "value": "".join(c for c in s if ord(c) < 256 and c not in "\r\n")}


EXAMPLES = {
    "Host": ["[::1]", "[1::]", "[1::2]", "[1:2:3:4:5:6:7:8]", "[1:2:3:4:5:6:7::]", "[::1.2.3.4]", "[1:2:3:4:5:6:7]", "[::", "[V1.a]", "a:b"],
    "Location": ["", "?q", "#f", "x:", "http://u:p@h/", "//h", "a:b:c", "1a:b", "/a b", "%zz", "%4a", "[", "http://[::1]:80/?#"],
    "Referer": ["/p?q", "/p?q#f", "?", "http://x#f"],
    "Content-Language": ["de-DE-1996", "x-private", "i-klingon", "en-x-a", "de-a-b1", "de-", "sl-rozaj-biske", "zh-min-nan", "a-bc", "toolonglang"],
    "ETag": ['W/"a"', 'w/"a"', '"a', '"a b"', '""', 'W/""', '"\x80"'],
    "If-Modified-Since": ["Sun, 06 Nov 1994 08:49:37 GMT", "sun, 06 nov 1994 08:49:37 gmt", "Sunday, 06-Nov-94 08:49:37 GMT",
                          "Sun Nov  6 08:49:37 1994", "Sun Nov 6 08:49:37 1994", "Sun, 6 Nov 1994 08:49:37 GMT"],
    "WWW-Authenticate": ["Basic ,", 'Basic realm="x"', "Negotiate abc==", "Basic", "Basic  a=b", "Basic a=b=c"],
    "Link": ["<>", "<a>;b", "<a>; b = c", "<a> ;b=\"c\"", "<a>b"],
    "Via": ["1.1 x", "1.1 ", "HTTP/1.1 x:80", "1.1 [::1]", "1.1 x (c)"],
    "Accept": ["text/html;q=0.5", "text/html;q=0.5555", "*/*;q=1.000", "*/*;q=1.001", "*/html", "a/b;;q=1", "a/b; q = 1"],
    "Alt-Svc": ["clear", "CLEAR", 'h2=":443"; ma=1', "h2=x"],
    "Content-Range": ["bytes 0-1/2", "bytes */2", "bytes 0-1/*", "bytes */*", "bytes  0-1/2"],
    "Server": ["a/1 (b)", "a (b (c))", "a/", "a/1/2"], "User-Agent": ["a/1 (b)", "a (b (c) d)", "(b)", "a  b"],
}


def directed():
    for n in EXAMPLES:
        for v in EXAMPLES[n]:
            yield {"field": n, "value": v}
    for n in NAMES:
        for c in CHARS:
            yield {"field": n, "value": c}
        for s in ("", "a", "a=b", "a;b=c", "1", "-1", '"a"', "*", "a/b", "a/b;c=d", "http://a/", "a a", "\xa0a"):
            yield {"field": n, "value": s}


# the RFCs' recursive comments: "(" *( ctext / quoted-pair / comment ) ")"
def comment_end(s, i):
    """the end of the comment that begins at i, or None"""
    depth = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            if i + 1 >= len(s):
                return None
            i += 1
        elif c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    return None


def flatten(s):
    """inner parentheses of nested comments left out"""
    out, depth, i = "", 0, 0
    while i < len(s):
        c = s[i]
        if c == "\\" and depth:
            out += s[i:i + 2]
            i += 2
            continue
        if c == "(":
            depth += 1
            if depth > 1:
                i += 1
                continue
        if c == ")" and depth:
            depth -= 1
            if depth:
                i += 1
                continue
        out += c
        i += 1
    return out if depth == 0 else s


COMMENTED = {"Server", "User-Agent", "Via", "From"}


def elements(v):
    """the elements of a list, or None where quoting is malformed"""
    q = re.sub(r'"(?:[^"\\]|\\.)*"', "", v)
    if '"' in q or "\\" in v and re.search(r'\\[\x00-\x08\x0a-\x1f\x7f]|\\$', v):
        return None
    if re.search(r'"(?:[^"\\]|\\.)*[\x00-\x08\x0a-\x1f\x7f]', v):
        return None
    return C.split_list(v)


def check(case):
    if "module" in case:
        m = importlib.import_module("httplint.syntax." + case["module"])
        pat = getattr(m, case["rule"].replace("-", "_"))
        got = bool(re.match(rf"^(?:{pat})\Z", case["text"], RE_FLAGS))
        want = GR.accepts(case["spec"], case["text"])
        return C.diff("rule:" + case["rule"], f"{case['rule']} accepts {case['text']!r}", got, want)
    n, v = case["field"], case["value"]
    c, lst, t = FIELDS[n]
    d = GR.lang(t, True)
    sc = C.request([[n, v]]) if not c._valid_in_responses else C.response([[n, v]])
    lint = C.lint(sc)
    got = len([x for x in lint.notes if type(x).__name__ in ("BAD_SYNTAX", "BAD_SYNTAX_DETAILED")
               and x.vars.get("field_name") == n]) > 0
    v = v.strip()
    if lst:
        parts = elements(v)
        if parts is None:
            return []
    else:
        parts = [v]
    want = any(not d.accepts(p) for p in parts)
    if not c.report_syntax:
        return C.diff("silent:" + n, f"syntax note for {n}: {v!r}", got, False)
    if got and want and n in COMMENTED and all(d.accepts(flatten(p)) for p in parts):
        return [("nested-comment", f"{n}: {v!r} has a nested comment, which RFC 9110 and RFC 5322 allow, and gets a syntax note")]
    return C.diff("field:" + n, f"syntax note for {n}: {v!r}", got, want)


def from_witness(w):
    if "module" in w:
        return w
    return {"field": w["field"], "value": w["text"]}
