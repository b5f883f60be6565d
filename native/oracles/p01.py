"""P01: linting never raises and always returns."""
import scenario
import msggen

import gzip
import json

LIMIT = 20


def coded(rng):
    """content in a coding, whole or damaged, in chunks"""
    data = rng.choice([b"hello", bytes(rng.randrange(256) for _ in range(60)), b"x" * 3000])
    z = gzip.compress(data, mtime=0)
    flags = rng.choice([0, 0, 0, 1, 2, 4, 8, 16, 31, 255])
    z = rng.choice([z, z[:3] + bytes([flags]) + z[4:], z[:rng.randrange(len(z))], z[:10] + bytes(rng.randrange(256) for _ in range(rng.choice([1, 30, 80]))),
                    z[:10] + b"\xff" * 60, b"\x1f\x8b" + data, data, z + z, z[:-8] + data])
    n = rng.choice([1, 1, 2, 5])
    return ["".join(map(chr, z[i * len(z) // n:(i + 1) * len(z) // n])) for i in range(n)]


def sf_value(rng, depth=0):
    """bare structured field items of every type"""
    return rng.choice(["1", "-7", "0", "999999999999999", "1.5", "-0.001", '"x"', '""', "tok", "*", "a/b", "?0", "?1", ":aGk=:", "::", "@1659578233",
                       "@-1", '%"f%c3%bc"', '%""', "()", "(a 1 ?0)", '("a";q=1 b);c=?0'])


SF_PARAMS = ["hit", "fwd", "fwd-status", "ttl", "stored", "collapsed", "key", "detail", "error", "next-hop", "next-protocol", "received-status",
             "details", "q", "a", "report-to", "u", "i", "wait", "match", "match-dest", "id", "type", "max-age", "ttl", "secure", "expires"]


def sf(rng):
    def ps():
        return "".join(f";{rng.choice(SF_PARAMS)}" + ("" if rng.random() < 0.2 else f"={sf_value(rng)}") for _ in range(rng.choice([0, 1, 2, 3])))
    r = rng.random()
    if r < 0.4:
        return ", ".join(sf_value(rng) + ps() for _ in range(rng.choice([1, 1, 2, 3])))
    return ", ".join(rng.choice(SF_PARAMS) + (ps() if rng.random() < 0.3 else "=" + sf_value(rng) + ps()) for _ in range(rng.choice([1, 2, 3])))


JSON_KEYS = ["max_age", "endpoints", "url", "group", "report_to", "include_subdomains", "failure_fraction", "success_fraction", "request_headers",
             "priority", "weight"]


def some_json(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < 0.35:
        return rng.choice([0, 1, -1, 1.5, "x", "", True, False, None, 10 ** 30, "\ud800"])
    if r < 0.55:
        return [some_json(rng, depth + 1) for _ in range(rng.choice([0, 1, 2]))]
    return {rng.choice(JSON_KEYS): some_json(rng, depth + 1) for _ in range(rng.choice([1, 2, 3]))}


def gen(rng):
    sc = msggen.message(rng)
    g = msggen.G(rng)
    r = rng.random()
    if r < 0.15:
        for h in sc["headers"]:
            h[1] = sf(rng)
    elif r < 0.25:
        # a parameter of a field's own examples, with an unusual value
        for h in sc["headers"]:
            h[1] = h[1].split(";")[0] + "".join(f";{rng.choice(SF_PARAMS + g.strs)}={sf_value(rng)}" for _ in range(2))
    elif r < 0.3:
        sc["headers"] += [["Content-Type", rng.choice(["text/html; charset=" + rng.choice(["hex", "utf-8", "idna", "punycode", "utf-7", "rot13", "x\x00",
                          "undefined", "unicode_escape", "utf-16", "cp037", "mbcs", "zip", "base64", "\xe9", "1" * 5000]), "application/json"])]]
        sc["body"] = [rng.choice(["\xff\xfe", "h\xe9", "\\x", "\x80" * 9000, "+AGEA", "xn--\xff"])]
    elif r < 0.34:
        sc["headers"] += [[rng.choice(["Report-To", "NEL", "Reporting-Endpoints"]), json.dumps(some_json(rng)).replace("NaN", "0")] for _ in range(rng.choice([1, 1, 2]))]
    elif r < 0.42:
        sc["headers"] += [["Content-Encoding", rng.choice(["gzip", "gzip", "br", "x-gzip", "gzip, br", "br, gzip", "gzip, gzip"])]]
        sc["body"] = coded(rng)
    elif r < 0.48 and sc["headers"]:
        # a piece of a value many times over, and a character that does not belong there
        h = rng.choice(sc["headers"])
        v = h[1] or "a;"
        i = rng.randrange(len(v))
        piece = rng.choice([v[i:i + rng.choice([1, 2, 3, 6, 12])], rng.choice([";", ",", " ", "\t", "=", "a", '"', "0-0", "0-", "; ", ";\t;", ";a ", " ;a  ", "a="])])
        piece += rng.choice(["", "", "", " ", ";", ",", " ; ", ", "])
        at = rng.choice([i, len(v), len(v)])
        h[1] = v[:at] + piece * rng.choice([20, 40]) + rng.choice(["\x01", "!", '"', "", v[at:]])
    return sc


REPEATED = [("Content-Type", "text/html", ";  "), ("Accept", "text/html", ";  "), ("Range", "bytes=0-0", ",0-0"), ("Range", "bytes=0-0", ",-0"), ("Expect", "a", ";  "),
            ("Strict-Transport-Security", "a", ";\t"), ("Link", "<a>", ";a "), ("Content-Security-Policy", "a", " ;a  "), ("Accept-Patch", "a/b", ";  "),
            ("Accept-Post", "a/b", ";  "), ("TE", "a", ";  "), ("Transfer-Encoding", "a", ";  "), ("Content-Disposition", "a", ";  "), ("Prefer", "a", ";  "),
            ("Cache-Control", "a", ",  "), ("User-Agent", "a", " a"), ("User-Agent", "a", " (a)"), ("Via", "1.1 a", " (a)"), ("Server", "a", "\t "),
            ("Forwarded", "for=a", ";  "), ("Set-Cookie", "a=b", ";  "), ("Keep-Alive", "a", ",a=b "), ("Origin", "http://a", "."), ("Host", "a", ".a"),
            ("Refresh", "0", ";  "), ("Alt-Svc", 'h3=":1"', ";  "), ("Date", "Sun", " "), ("Allow", "A", " ,"), ("Accept-Language", "a", "-a"),
            ("Content-Language", "a", "-a"), ("Location", "a", "/a"), ("Location", "http://[::1", ":1"), ("Referer", "http://a", ":1"), ("Content-Range", "bytes 0", "-0"),
            ("Content-MD5", "a", "a="), ("If-Match", '"a"', ',  "a"'), ("P3P", "a", ",a "), ("Pragma", "a", ", "), ("WWW-Authenticate", "a b=c", ", b=c"), ("X", "a", ";  ")]


def from_witness(w):
    if not isinstance(w, dict) or "text" not in w or "field" not in w:
        return []
    f, v = w["field"], w["text"]
    end = v[-1:]
    half = v[len(v) // 3:-1]
    return [message(f, x, w.get("request")) for x in (v[:-1] + half + half + end, v[:-1] + half + half + "!", v[:-1] + half + half)]


def message(name, value, request):
    return {"kind": "request" if request else "response", "topline": ["GET", "/", "1.1"] if request else ["1.1", "200", "OK"], "headers": [[name, value]],
            "body": [], "trailers": None}


def directed():
    out = msggen.directed()
    for n, start, piece in REPEATED:
        for end in ("\x01", '"', "!"):
            for request in (False, True):
                out.append(message(n, start + piece * 40 + end, request))
    for t in ("hit", "key", "ttl", "error"):
        for v in ("?0", "?1", "1", '"x"', "tok", "1.5", ":aGk=:", '%"x"', "@1"):
            for n in ("Cache-Status", "Proxy-Status"):
                out.append({"kind": "response", "topline": ["1.1", "200", "OK"], "headers": [[n, f"a;{t}={v}"]], "body": [], "trailers": None})
    reqs = [None] + [{"kind": "request", "topline": tl, "headers": h, "body": [], "trailers": None}
                     for tl in (["GET", "/", "1.1"], None, ["", "", ""]) for h in ([], [["Range", "bytes=0-1"], ["Expect", "100-continue"], ["Accept", "a/b"]])]
    for code in [*range(100, 600), 0, 99, 600, 999, 1000, "", "abc", "1e3", "\xb2", "+200", "2 00"]:
        for req in reqs:
            for hs in ([], [["Location", "/x"], ["Date", "x"], ["Allow", "GET"]]):
                if req is not None and hs and code not in (201, 206, 301, 304, 405, 412, 416):
                    continue
                out.append({"kind": "response", "topline": ["1.1", str(code), ""], "headers": hs, "body": ["x"], "trailers": None, "request": req})
    return out


def check(sc):
    scenario.run(sc)
    return []
