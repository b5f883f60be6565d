"""P12: combining the lines of a field."""
import itertools
import json
import re
import http_sf
import common as C
import corpus
from spec import lists as SP
from httplint.field import utils
from httplint.field.broken_field import BrokenField
from httplint.field.list_field import HttpListField
from httplint.field.singleton_field import SingletonField
from httplint.field.structured_field import StructuredField
from httplint.field.json_field import JsonField
from httplint.field.utils import RE_FLAGS

LIMIT = 200
FIELDS = corpus.field_classes()
KINDS = (HttpListField, SingletonField, BrokenField, StructuredField)
NAMES = sorted(n for n, c in FIELDS.items() if issubclass(c, KINDS))
SEEDS = None


def seeds():
    global SEEDS
    if SEEDS is None:
        SEEDS = corpus.Corpus() if hasattr(corpus, "Corpus") else None
    return SEEDS


def bits(rng, n):
    c = FIELDS[n]
    r = rng.random()
    if r < 0.25:
        return C.token(rng, 1, 4)
    if r < 0.4:
        return C.qstring(rng, 5)[0]
    if r < 0.5:
        return rng.choice(['"', 'a"', '"a', 'a"b"c', '"a\\"', '"\x01"', '""', '"\\\x01"', '\\', "\xa0", "a b", "GET"])
    if r < 0.6:
        return rng.choice(["", " ", "\t", " a ", "*", "a;b=c", 'a;b="c,d"', "a=1", "b=2", "a", "3", "?1"])
    if r < 0.75:
        return str(rng.randint(0, 20))
    t = rng.choice(tests(n))
    return t


def tests(n):
    out = TESTS.get(n)
    return out or ["a"]


def _tests():
    from httplint.field.tests import FieldTest
    out = {}

    def rec(c):
        for s in c.__subclasses__():
            name = getattr(s, "name", None)
            if name:
                n = name.decode("latin-1") if isinstance(name, bytes) else name
                for i in getattr(s, "inputs", []):
                    out.setdefault(n, []).append(i.decode("latin-1"))
            rec(s)
    rec(FieldTest)
    return out


TESTS = _tests()


def gen(rng):
    n = rng.choice(NAMES)
    lines = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        lines.append(rng.choice([",", ", ", " , ", ",,", " ,\t,"]).join(bits(rng, n) for _ in range(rng.choice([0, 1, 1, 2, 3]))))
    return {"field": n, "lines": [x.replace("\n", " ").replace("\r", " ") for x in lines], "pad": rng.random() < 0.3}


def directed():
    # every value over an alphabet with a character of each kind that the division looks at, to length 7
    for k in range(0, 8):
        for t in itertools.product('a," \\\x01' if k < 7 else 'a,"\\ ', repeat=k):
            yield {"split": "".join(t)}


def values(c, h, items):
    out = []
    for x in items:
        try:
            out.append(h.parse(x.strip(), lambda *a, **k: None))
        except ValueError:
            pass
    return out


def check(case):
    if "split" in case:
        v = case["split"]
        return C.diff("split", f"elements of {v!r}", utils.split_list_field(v), SP.elements(v))
    n, lines = case["field"], case["lines"]
    if not lines:
        return []
    c = FIELDS[n]
    hs = [[n, x] for x in lines]
    if case.get("pad"):  # other fields between
        hs = [y for x in hs for y in (["X-Other", "1"], x)]
    sc = C.request(hs) if not c._valid_in_responses else C.response(hs)
    lint = C.lint(sc)
    got = lint.headers.parsed.get(n.lower(), "absent")
    h = c(n, lint)
    notes = [(x.subject, type(x).__name__) for x in lint.notes if type(x).__name__ in ("BAD_SYNTAX", "BAD_SYNTAX_DETAILED")
             and x.vars.get("field_name") == n]
    rep = sum(1 for x in lint.notes if type(x).__name__ == "SINGLE_HEADER_REPEAT" and x.vars.get("field_name") == n)
    step = 2 if case.get("pad") else 1
    out = []

    def pattern():
        return str(getattr(c.syntax, "element", c.syntax))

    def bad(x):
        return bool(c.syntax) and not re.match(rf"^\s*(?:{pattern()})\s*$", x, RE_FLAGS)

    if issubclass(c, HttpListField):
        parts = [SP.elements(x) for x in lines]
        want = values(c, h, [p for l in parts for p in l])
        if n == "Vary":  # repeated members are dropped
            want = list(dict.fromkeys(want))
        out += C.diff("list:" + n, f"{n} {lines!r}", got, want)
        for i, l in enumerate(parts):
            k = i * step + step - 1
            out += C.diff("syntax:" + n, f"syntax notes for line {i} of {n} {lines!r}",
                          sum(1 for s, _ in notes if s == f"offset-{k}"), sum(1 for p in l if bad(p)))
        out += C.diff("repeat", f"repetition notes for {n}", rep, 0)
    elif issubclass(c, SingletonField):
        try:
            want = h.parse(lines[0].strip(), lambda *a, **k: None)
        except ValueError:
            want = None
        if not hasattr(want, "__dict__"):
            out += C.diff("single:" + n, f"{n} {lines!r}", got, want)
        out += C.diff("repeat", f"repetition notes for {n} {lines!r}", rep, int(len(lines) > 1))
        out += C.diff("syntax:" + n, f"syntax notes for {n} {lines!r}", len(notes),
                      int(bad(lines[0]) and c.report_syntax))
    elif issubclass(c, BrokenField):
        out += C.diff("broken:" + n, f"{n} {lines!r}", got, values(c, h, lines))
        for i, l in enumerate(lines):
            k = i * step + step - 1
            out += C.diff("syntax:" + n, f"syntax notes for line {i} of {n} {lines!r}",
                          sum(1 for s, _ in notes if s == f"offset-{k}"), int(bad(l)))
        out += C.diff("repeat", f"repetition notes for {n}", rep, 0)
    else:
        try:
            want = http_sf.parse(", ".join(lines).strip().encode("utf-8"), tltype=c.sf_type)
        except Exception:
            want = None
        if n == "Accept-Query" and want:  # media ranges are normalised
            h.value = want
            h.evaluate(lambda *a, **k: None)
            want = h.value
        errs = C.count(lint, "STRUCTURED_FIELD_PARSE_ERROR")
        out += C.diff("sf:" + n, f"{n} {lines!r}", got, want)
        out += C.diff("sf-error:" + n, f"parse errors for {n} {lines!r}", errs, int(want is None))
    return out


def from_witness(w):
    return w
