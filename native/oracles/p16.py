"""P16: Strict-Transport-Security."""
import common as C
from spec import hsts as SP

NAMES = ["max-age", "includeSubDomains", "preload", "foo", "x"]
AGES = ["0", "1", "1535999", "1536000", "1536001", "31536000", "00", "-1", "+5", "1.5", "a", "", "1_0", "\xb2", "5 5",
        "99999999999999999999", '"1536000"', '"0"', '"', '""', "'5'", '"1535999"', "1535999 ", '"\\5"']


def directive(rng):
    n = rng.choice(NAMES[:3] + NAMES)
    n = C.randcase(rng, n)
    r = rng.random()
    if n.lower() == "max-age" and r < 0.85 or r < 0.15:
        v = "=" + (str(rng.randint(0, 3 * 10**6)) if rng.random() < 0.3 else rng.choice(AGES))
    else:
        v = ""
    if rng.random() < 0.15:
        v = v.replace("=", rng.choice([" = ", "= ", " ="]))
    return n + v


def gen(rng):
    ds = [directive(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]))]
    if rng.random() < 0.7:
        ds.insert(rng.randint(0, len(ds)), "max-age=" + rng.choice(AGES[:6] + AGES))
    if rng.random() < 0.15:
        ds.insert(rng.randint(0, len(ds)), "")
    v = rng.choice([";", "; ", " ; ", "; "]).join(ds)
    if rng.random() < 0.2:
        v += rng.choice([";", " ;", "; ", ";;", ";\t"])
    return {"value": v, "base": rng.choice(["https://example.com/", "https://example.com/", "http://example.com/",
                                            "", "https://http:/"]),
            "status": rng.choice(["200", "200", "301", "302", "404", "abc"])}


def directed():
    for base in ("https://e.com/", "http://e.com/", ""):
        for st in ("200", "301", "308"):
            for a in (0, 1, 1535999, 1536000, 1536001):
                for rest in ("", "; includeSubDomains", "; preload", "; preload; includeSubDomains",
                             "; includesubdomains=1; preload", "; INCLUDESUBDOMAINS; Preload=", "; max-age=5;"):
                    yield {"value": f"max-age={a}{rest}", "base": base, "status": st}
    for v in ("", ";", "max-age", "preload", "max-age=a", "max-age=a; max-age=5", "max-age=5; max-age=a", "max-age=;x;x",
              "includeSubDomains; preload", "a=1;b=2;a=3", "max-age=1;;;preload", "=;="):
        yield {"value": v, "base": "https://e.com/", "status": "200"}


def check(c):
    lint = C.lint(C.response([["Strict-Transport-Security", c["value"]]], status=c["status"], base_uri=c["base"]))
    got = lint.headers.parsed.get("strict-transport-security")
    pol, notes = SP.parse(c["value"].strip(), C.unquote)
    st = int(c["status"]) if c["status"].isdigit() else None
    valid, adv = SP.judge(pol, bool(SP.INVALIDATING & set(notes)), "HSTS_BAD_MAX_AGE" in notes,
                          c["base"].startswith("http:"), st)
    out = C.diff("hsts-policy", "HSTS policy", got, pol)
    v = [n for n in lint.notes if type(n).__name__.startswith("HSTS_")]
    out += C.diff("hsts-verdict", "HSTS verdict", [type(n).__name__ for n in v], ["HSTS_VALID" if valid else "HSTS_INVALID"])
    sub = sorted(type(s).__name__ for n in v for s in n.subnotes)
    return out + C.diff("hsts-advice", "HSTS subnotes", sub, sorted(notes + adv))


def from_witness(w):
    w = w or {}
    if "value" in w:
        yield {"value": w["value"], "base": w.get("base", "https://e.com/"), "status": str(w.get("status") or 200)}
        yield {"value": "max-age=5;" + w["value"], "base": "https://e.com/", "status": "200"}


KEEP = ("base", "status")
MIN_STR = True
