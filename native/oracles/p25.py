"""P25: Cache-Control."""
import common as C
from spec import cc as SP


def elem(rng):
    name = rng.choice(list(SP.DIRECTIVES) * 3 + ["foo", "x-bar", "no-store2", "max-agee", "maxage"])
    k = SP.kind(name)
    n = C.randcase(rng, name) if rng.random() < 0.3 else name
    r = rng.random()
    if k == "delta":
        v = rng.choice(["0", "1", "5", "60", "2147483648", "2147483649", "99999999999", "-5", "abc", '"10"', "", "1.5", None,
                        str(rng.randint(0, 9)), str(rng.randint(2**31 - 3, 2**31 + 3))])
    elif k == "names":
        v = rng.choice([None, None, C.qstring(rng)[0], '"set-cookie, foo"', "foo", "*", '""'])
    elif k == "flag":
        v = rng.choice([None, None, None, "1", "foo", '"x"', ""])
    else:
        v = rng.choice([None, "1", C.token(rng), C.qstring(rng)[0], "a=b"])
    return n if v is None else n + "=" + v


def gen(rng):
    n = rng.choice([1, 1, 2, 2, 3, 4, 6, 9])
    es = [elem(rng) for _ in range(n)]
    if rng.random() < 0.3 and es:
        es.append(C.randcase(rng, rng.choice(es)))
    if rng.random() < 0.35:
        for d in rng.choice([["pre-check"], ["post-check"], ["pre-check", "post-check"], ["post-check", "pre-check"]]):
            es.insert(rng.randint(0, len(es)), d + "=" + str(rng.choice([0, 0, 1, 2, 5])))
    lines, i = [], 0
    while i < len(es):
        j = i + rng.choice([1, 1, 2, 3, len(es)])
        lines.append(es[i:j])
        i = j
    return {"kind": rng.choice(["response", "response", "request"]), "lines": lines,
            "name": rng.choice(["Cache-Control", "cache-control", "CACHE-CONTROL"]), "sep": rng.choice([", ", ",", " , ", ",,"])}


def directed():
    for d in SP.DIRECTIVES:
        for k in ("response", "request"):
            v = {"delta": "5", "names": '"a"', "flag": None}[SP.kind(d)]
            e = d if v is None else d + "=" + v
            yield {"kind": k, "lines": [[e]], "name": "Cache-Control", "sep": ", "}
            yield {"kind": k, "lines": [[e], [e]], "name": "Cache-Control", "sep": ", "}
            yield {"kind": k, "lines": [[e.upper()]], "name": "Cache-Control", "sep": ", "}
            if SP.kind(d) == "delta":
                for x in ("2147483648", "2147483649", "x"):
                    yield {"kind": k, "lines": [[d + "=" + x]], "name": "Cache-Control", "sep": ", "}
            else:
                yield {"kind": k, "lines": [[d], [d + "=a"]], "name": "Cache-Control", "sep": ", "}
            for d2 in SP.DIRECTIVES:
                v2 = {"delta": "7", "names": None, "flag": None}[SP.kind(d2)]
                yield {"kind": k, "lines": [[e, d2 if v2 is None else d2 + "=" + v2]], "name": "Cache-Control", "sep": ", "}
    for a in (None, 0, 1, 2):
        for b in (None, 0, 1, 2):
            yield {"kind": "response", "lines": [[f"pre-check={a}"] * (a is not None) + [f"post-check={b}"] * (b is not None)],
                   "name": "Cache-Control", "sep": ", "}


def check(c):
    h = [[c["name"], c["sep"].join(x)] for x in c["lines"]]
    sc = C.response(h) if c["kind"] == "response" else C.request(h)
    lint = C.lint(sc)
    pairs, want = [], []
    for x in c["lines"]:
        for e in x:
            for el in C.split_list(e):
                p, n = SP.parse(el, C.unquote, SP.as_int)
                want += n
                if p:
                    pairs.append(p)
    out = []
    got = lint.headers.parsed.get("cache-control", "absent")
    want_val = pairs if c["lines"] else "absent"
    out += C.diff("value", "parsed value", got if isinstance(got, str) else list(map(tuple, got)), want_val)
    out += C.diff("parse-notes", "parsing notes", sorted(C.names(lint, SP.PARSE_NOTES)), sorted(want))
    cnt = {}
    for n, _ in pairs:
        cnt[n] = cnt.get(n, 0) + 1
    has = cnt.__contains__
    w = SP.conflict(c["kind"], has)
    ns = C.by_name(lint, "CC_CONFLICTING")
    out += C.diff("conflict", "overriding directive", [n.vars["directive"] for n in ns], [w] if w else [])
    if w and ns:
        others = dict(SP.OVERRIDES)[w]
        miss = [o for o in others if has(o) != (f"`{o}`" in str(ns[0].vars["conflicts"]))]
        out += C.diff("conflicts", "directives listed wrongly as overridden", miss, [])
    for note in ("CC_DUP", "CC_WRONG_MESSAGE"):
        out += C.diff(note.lower(), note, sorted(n.vars["directive"] for n in C.by_name(lint, note)),
                      sorted(d for d in cnt if SP.directive_note(c["kind"], d, cnt[d]) == note))
    w = SP.check_note(has, dict(pairs).get)
    out += C.diff("checks", "pre/post-check notes", C.names(lint, SP.CHECK_NOTES), [w] if w else [])
    return out


def from_witness(w):
    w = w or {}
    es = [w["element"]] if w.get("element") else [
        n if v is None else f"{n}={v}" for n, v in w.get("pairs", [])]
    for k in ("response", "request"):
        yield {"kind": w.get("kind", k), "lines": [[e] for e in es], "name": "Cache-Control", "sep": ", "}


KEEP = ("kind", "name", "sep")
