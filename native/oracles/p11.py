"""P11: the lines, size and line notes of a section."""
import re
import common as C
import corpus

LIMIT = 200
FIELDS = corpus.field_classes()
NAMES = sorted(FIELDS)
WATCH = {"FIELD_TOO_LARGE", "FIELD_SECTION_TOO_LARGE", "FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING"}


def gen(rng):
    out = []
    big = rng.random() < 0.3
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.4:
            n = C.randcase(rng, rng.choice(NAMES))
        elif r < 0.7:
            n = C.token(rng)
        elif r < 0.8:
            n = rng.choice(["", " ", "a b", "\xe9", "X-\xe9", "Host\xff", "A\x00", "Foo ", " Foo", "ETag\xa0"])
        else:
            n = rng.choice(["Foo", "foo", "FOO", "Host", "ETag", "X-Powered-By", "Pragma"])
        r = rng.random()
        if r < 0.3 or not big:
            v = rng.choice(["a", "", " ", "\xe9", "abc\xff\x80", "1", "a, b", "\x00", "x" * rng.randint(0, 100)])
        else:
            total = rng.choice([8191, 8192, 8193, 8192, 8193, 100, 4096, 16384, 32767 - 8192 * 2])
            v = "x" * max(0, total - len(n))
            if rng.random() < 0.2:
                v = "\xe9" + v[1:]
        out.append([n, v])
    if big and rng.random() < 0.6:  # fill up to about the limit
        have = sum(len(a) + len(b) for a, b in out)
        rest = rng.choice([32767, 32768, 32769]) - have
        while rest > 0:
            k = min(rest, rng.choice([8192, 8000, 20000]))
            out.append(["f", "y" * (k - 1)] if k > 1 else ["f", ""])
            rest -= k
    return {"lines": out, "req": rng.random() < 0.5, "trailers": rng.random() < 0.2, "cover": out and rng.random() < 0.5}


def valid(case, name):
    """whether the line's handler accepts it (P13)"""
    n = name.strip()
    if not re.fullmatch(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+", n):
        return False
    from httplint.field.finder import HttpFieldFinder, UnknownHttpField
    c = HttpFieldFinder.find_handler_class(n) or UnknownHttpField
    return c._valid_in_requests if case["req"] else c._valid_in_responses


def check(case):
    lines = case["lines"]
    build = C.request if case["req"] else C.response
    sc = build(lines) if not case["trailers"] else build([], trailers=lines)
    lint = C.lint(sc)
    sec = lint.trailers if case["trailers"] else lint.headers
    out = []
    size = sum(len(n) + len(v) for n, v in lines)
    out += C.diff("size", "section size", sec.size, size)
    text = [(re.sub("[^\0-\x7f]", "", n), v) for n, v in lines]
    out += C.diff("text", "section text", [tuple(x) for x in sec.text], text)
    want = []
    for i, (n, v) in enumerate(lines):
        if re.search("[^\0-\x7f]", n):
            want.append((f"offset-{i}", "FIELD_NAME_ENCODING"))
        if re.search("[^\0-\x7f]", v):
            want.append((f"offset-{i}", "FIELD_VALUE_ENCODING"))
        if len(n) + len(v) > 8192 and valid(case, text[i][0]):
            want.append((f"offset-{i}", "FIELD_TOO_LARGE"))
    if size > 32768:
        want.append(("field-block", "FIELD_SECTION_TOO_LARGE"))
    got = [(x.subject, type(x).__name__) for x in lint.notes if type(x).__name__ in WATCH]
    out += C.diff("notes", f"size and encoding notes for {[(n, len(v)) for n, v in lines]}", sorted(got), sorted(want))
    # every other note about one line names a line that is there
    for x in lint.notes:
        m = re.fullmatch(r"offset-(.*)", x.subject)
        if m and not (m.group(1).isdigit() and int(m.group(1)) < len(lines)):
            out.append(("subject", f"{type(x).__name__} is about {x.subject}, of {len(lines)} lines"))
    return out


def directed():
    for req in (False, True):
        for n in range(8190, 8195):
            yield {"lines": [["A", "b"], ["Foo", "x" * (n - 3)]], "req": req, "trailers": False}
        for n in range(32766, 32771):
            yield {"lines": [["Foo", "x" * (n // 2 - 3)], ["Bar", "x" * (n - n // 2 - 3)]], "req": req, "trailers": False}


def from_witness(w):
    return {"lines": w["lines"], "req": False, "trailers": False}
