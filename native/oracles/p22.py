"""P22: request targets."""
import common as C
from spec import grammar as GR
from spec import uri as SP

NAMES = {"URI_BAD_SYNTAX", "URI_TOO_LONG"}
T = GR.tree("URI")
D = GR.lang("URI")
ODD = list(" \t\x00\x7f#?/:@[]%\"<>\\^`{|}~") + ["\xe9", "\u20ac", "\u2100", "\u0130", "\U0001f600", "\ufffd", "\u3002", "xn--", "..", "\xad"]


def gen(rng):
    s = GR.generate(rng, T, rng.choice([4, 12, 40]))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        i = rng.randint(0, len(s))
        r = rng.random()
        if r < 0.6:
            s = s[:i] + rng.choice(ODD) + s[i:]
        elif r < 0.8:
            s = s[:i] + s[i + 1:]
        else:
            s = rng.choice(["http://", "HTTP://u:p@", "foo:", "//", "/"]) + s[i:]
    if rng.random() < 0.1:
        s += rng.choice("a/?#\xe9") + "a" * rng.choice([7980, 7990, 8000])
        s = s[:rng.randint(7990, 8010)] if rng.random() < 0.7 else s
    if rng.random() < 0.05:
        return {"raw": s.encode("utf-8", "replace").decode("latin-1") + rng.choice(["\xff", "\xc3", ""])}
    return {"text": s}


def directed():
    for s in ("", "*", "/", "http://example.com/", "HTTP://EXAMPLE.com/?", "http://h/?#", "http://h/#", "http://h/#\xe9", "http://\xe9.com/\xe9?\xe9#\xe9",
              "http://u:\xe9@\xe9.com:80/", "http://a..b/", "http://a..b/\xe9", "http://\u2100.com/", "http://h/a b", " http://h/", "http://h/ ",
              "http://h/\n", "http://h/a\tb", "http://[::1]:80/", "http://[::1/", "http://h:x/", "a:b", "http:///x", "http://" + "a" * 64 + "/",
              "http://" + "\xe9" * 70 + "/", "x:y://\xe9/", "/p://\xe9/", "http://a@b@\xe9/", "example.com:80", "%", "http://h/%zz", "x:" + "#" + "a" * 9000):
        yield {"text": s}
    for n in (7999, 8000, 8001):
        for s in ("x:" + "a" * (n - 2), "x:" + "a" * (n - 2) + "#", "x:" + "a" * (n - 2) + "#a", "x:a#" + "a" * (n - 4),
                  "\xff" * n, "/" * n, "x:\xe9" + "a" * (n - 8), "http://\xe9..b/" + "a" * (n - 12)):
            yield {"text": s}


def trivial(case):
    return case.get("text") == ""


def check(case):
    wire = case["raw"] if "raw" in case else case["text"].encode("utf-8").decode("latin-1")
    text = wire.encode("latin-1").decode("utf-8", "replace")
    lint = C.lint(C.request([["User-Agent", "x"]], uri=wire))
    uri = SP.convert(text)
    kept, want = SP.judge(text if uri is None else uri, uri is not None, uri is not None and D.accepts(uri))
    got = C.names(lint, NAMES)
    out = C.diff("iri", f"recorded target {text[:80]!r}", lint.iri, text)
    out += C.diff("uri", f"URI for {text[:80]!r}", lint.uri, kept)
    out += C.diff("notes", f"notes for {text[:80]!r} ({len(text)} characters)", sorted(got), sorted(want))
    return out


def from_witness(w):
    return {"text": w["text"]}
