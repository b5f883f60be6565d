"""P10: which handler a field name gets, in any spelling."""
import re
import common as C
from spec import fields as SP

LIMIT = 200
ALL = sorted(SP.NAMES)
KNOWN_CLASSES = set(SP.NAMES.values())
OWN = {"FIELD_NAME_BAD_SYNTAX", "FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE",
       "FIELD_SECTION_TOO_LARGE"}


def spell(rng, n):
    r = rng.random()
    if r < 0.5:
        n = C.randcase(rng, n)
    elif r < 0.6:
        n = n.upper()
    if rng.random() < 0.25:
        n = rng.choice(["", " ", "\t", "  ", "\x0b"]) + n + rng.choice(["", " ", "\t", " \t"])
    return n


def near(rng):
    """almost a known name, or the name of something inside the implementation"""
    n = rng.choice(ALL)
    r = rng.random()
    if r < 0.25:
        return n.replace("-", "_")
    if r < 0.35 and "-" in n:
        i = rng.choice([i for i, c in enumerate(n) if c == "-"])
        return n[:i] + "_" + n[i + 1:]
    if r < 0.45:
        return n + rng.choice(["-", "s", "2", "_", ".", "\xe9", " x", "-field", "_field"])
    if r < 0.55:
        return rng.choice(["_", "-", "x-", "x"]) + n
    if r < 0.65:
        i = rng.randrange(len(n))
        return n[:i] + n[i + 1:]
    if r < 0.8:
        return rng.choice(["", " ", "_", "__init__", "-", "--init--", "__name__", "from-field", "From_Field", "from_field",
                           "httpfield", "tests", "utils", "section", "finder", "x.y", "..", "cors", "--path--",
                           "unknownhttpfield", "deprecatedfield", "list_field", "list-field", "a/b"])
    return C.token(rng)


def gen(rng):
    n = rng.choice(ALL) if rng.random() < 0.7 else near(rng)
    names = [spell(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]
    extra = [spell(rng, rng.choice(ALL)) for _ in range(rng.choice([0, 0, 1]))]
    vals = [rng.choice(["a", "1", "", "a, b", '"x"', "Tue, 15 Nov 1994 08:12:31 GMT"]) for _ in names + extra]
    lines = [list(x) for x in zip(names + extra, vals)]
    rng.shuffle(lines)
    return {"lines": lines, "req": rng.random() < 0.5, "trailers": rng.random() < 0.2}


def norm(n):
    """names are decoded as ASCII, without the rest"""
    return re.sub("[^\0-\x7f]", "", n).strip().lower()


def check(case):
    lines = case["lines"]
    if not lines:
        return []
    build = C.request if case["req"] else C.response

    def run(ls):
        lint = C.lint(build(ls) if not case["trailers"] else build([], trailers=ls))
        return lint, (lint.trailers if case["trailers"] else lint.headers)
    lint, sec = run(lines)
    out = []
    order = list(dict.fromkeys(norm(n) for n, _ in lines))
    out += C.diff("entries", f"parsed entries of {lines}", sorted(sec.parsed), sorted(order))
    out += C.diff("handlers", f"handlers of {lines}", sorted(sec.handlers), sorted(order))
    for k in order:
        h = sec.handlers.get(k)
        if h is None:
            continue
        got = type(h).__name__
        want = SP.NAMES.get(k, "UnknownHttpField")
        if got != want and not (want == "UnknownHttpField" and got not in KNOWN_CLASSES
                                and k == getattr(h, "canonical_name", "").lower()):
            out.append(("class", f"{k!r} is handled by {got}, expected {want}"))
        # any spelling gives what the plain one gives
        if len(order) == 1:
            plain, sec2 = run([[k, v] for _, v in lines])
            out += C.diff("value", f"value of {lines} against lowercase names",
                          repr(sec.parsed.get(k)), repr(sec2.parsed.get(k)))
            if all(norm(n) == n.lower() for n, _ in lines):
                out += C.diff("notes", f"notes of {lines} against lowercase names",
                              sorted(type(x).__name__ for x in lint.notes),
                              sorted(type(x).__name__ for x in plain.notes))
    if all(k not in SP.NAMES for k in order):
        base, _ = run([])
        have = sorted(type(x).__name__ for x in base.notes)
        more = sorted(type(x).__name__ for x in lint.notes if type(x).__name__ not in OWN)
        out += C.diff("unknown", f"notes for unknown {lines}", more, have)
    return out


def directed():
    for n in ALL:
        for req in (False, True):
            yield {"lines": [[n.title(), "a"]], "req": req, "trailers": False}
    for n in ALL:
        if "-" in n or "_" in n:
            yield {"lines": [[n.replace("-", "_"), "a"]], "req": False, "trailers": False}


def from_witness(w):
    return {"lines": [[w["name"], "a"]], "req": False, "trailers": False}
