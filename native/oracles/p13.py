"""P13: misplaced, misnamed and deprecated fields."""
import re
import common as C
import corpus
from spec import fields as SP
from oracles.p12 import TESTS

LIMIT = 200
ALL = sorted(SP.NAMES)
GATES = {"RESPONSE_HDR_IN_REQUEST", "REQUEST_HDR_IN_RESPONSE", "FIELD_NAME_BAD_SYNTAX", "FIELD_DEPRECATED"}
SELF = {"FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE", "FIELD_SECTION_TOO_LARGE"}
TOKEN = re.compile(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+\Z")
BY_NAME = {k.lower(): v for k, v in TESTS.items()}


def value(rng, n):
    r = rng.random()
    if r < 0.6 and BY_NAME.get(n):
        return rng.choice(BY_NAME[n]).replace("\r", " ").replace("\n", " ")
    return rng.choice(["a", "", "*", "1", "a, b", '"x"', "a=b; c=d", "Tue, 15 Nov 1994 08:12:31 GMT", "{", "no-store",
                       "https://example.com/", "max-age=1", "\xe9"])


def gen(rng):
    req = rng.random() < 0.5
    wrong = SP.RESPONSE_ONLY if req else SP.REQUEST_ONLY
    lines = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.45:
            n = rng.choice(wrong)
        elif r < 0.8:
            n = rng.choice(ALL)
        elif r < 0.9:
            n = rng.choice(["a b", "", "a,b", "a:b", "a/b", "(a)", '"a"', "a\x00", "a\x7f", "[a]", "{a}", "a=b", "<a>", "@", "\\",
                            "a?", "a;", "host:", "vary x", "f\xe9", "\xe9", "-", "_", "!", "a.b", "1", "a'b", "a\tb", "a\xa0"])
        else:
            n = C.token(rng)
        lines.append([C.randcase(rng, n), value(rng, n)])
        if rng.random() < 0.3:
            lines.append([C.randcase(rng, n), value(rng, n)])
    return {"lines": lines, "req": req, "trailers": rng.random() < 0.15}


def norm(n):
    return re.sub("[^\0-\x7f]", "", n).strip().lower()


def verdict(n, req):
    """(the note for a line of that name, whether it is accepted); None: not judged"""
    if n in SP.NAMES:
        if n in SP.UNJUDGED:
            return None
        inreq, inresp = SP.messages(n)
        if req and not inreq:
            return "RESPONSE_HDR_IN_REQUEST", False
        if not req and not inresp:
            return "REQUEST_HDR_IN_RESPONSE", False
        return ("FIELD_DEPRECATED" if SP.deprecated(n) else None), True
    if not TOKEN.match(n):
        return "FIELD_NAME_BAD_SYNTAX", False
    from httplint.field.finder import HttpFieldFinder
    if HttpFieldFinder.find_handler_class(n) is not None:
        return None  # a field that the specification does not know
    return None, True


def run(case, lines):
    build = C.request if case["req"] else C.response
    lint = C.lint(build(lines) if not case["trailers"] else build([], trailers=lines))
    return lint, (lint.trailers if case["trailers"] else lint.headers)


def check(case):
    lines = case["lines"]
    out = []
    lint, sec = run(case, lines)
    vs = [verdict(norm(n), case["req"]) for n, _ in lines]
    for i, v in enumerate(vs):
        if v is None:
            continue
        got = sorted(type(x).__name__ for x in lint.notes if x.subject == f"offset-{i}" and type(x).__name__ in GATES)
        out += C.diff("gate", f"verdict on line {i} of {lines} in a {'request' if case['req'] else 'response'}", got, [v[0]] if v[0] else [])
        if not v[1] and sec.parsed.get(norm(lines[i][0])):
            out.append(("value", f"{lines[i]} has a value: {sec.parsed[norm(lines[i][0])]!r}"))
    if not case["trailers"]:
        n = sum(1 for x in lint.notes if type(x).__name__ in GATES and not x.subject.startswith("offset-"))
        if n:
            out.append(("subject", f"{n} such notes are about no line: {lines}"))
    # what is not accepted changes nothing else
    keep = [x for x, v in zip(lines, vs) if v is None or v[1]]
    if len(keep) < len(lines) and sum(len(a) + len(b) for a, b in lines) < 8000:
        other, sec2 = run(case, keep)
        drop = {"REQUEST_HDR_IN_RESPONSE", "RESPONSE_HDR_IN_REQUEST", "FIELD_NAME_BAD_SYNTAX"} | SELF
        out += C.diff("other", f"other notes with {[x for x, v in zip(lines, vs) if v and not v[1]]}, next to {keep}",
                      sorted(type(x).__name__ for x in lint.notes if type(x).__name__ not in drop),
                      sorted(type(x).__name__ for x in other.notes if type(x).__name__ not in drop))
        for k, v in sec2.parsed.items():
            out += C.diff("kept", f"value of {k} next to {lines}", repr(sec.parsed.get(k)), repr(v))
    return out


def directed():
    for n in ALL:
        for req in (False, True):
            vals = BY_NAME.get(n) or ["a"]
            for v in vals[:6]:
                yield {"lines": [[n.title(), v.replace("\r", " ").replace("\n", " ")]] * 2, "req": req, "trailers": False}


def from_witness(w):
    names = w.get("names") or ["foo"]
    if w.get("field"):
        c = corpus_name(w["field"])
        if c and TOKEN.match(norm(names[0])):
            names = [c] * len(names)
    return {"lines": w.get("lines") or [[n, "a"] for n in names], "req": w.get("req", False), "trailers": False}


def corpus_name(cls):
    names = SP.of_class(cls)
    return names[0] if names else None
