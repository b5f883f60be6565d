"""P18: CORS roles and origin matching."""
import common as C
from spec import cors as SP
from spec import grammar as GR

METHODS = ["OPTIONS", "options", "GET", "POST", "Options", "OPTION", "", "HEAD"]
HOSTS = ["example.com", "EXAMPLE.com", "a", "[::1]", "127.0.0.1", "xn--e1afmkfd.example", "a.b-c"]
ORIGINS = ["null", "http://example.com", "HTTPS://example.com", "http://example.com:80", "http://example.com:8080",
           "http://example.com:0", "http://example.com:080", "http://example.com:", "http://[::1]:3000",
           "http://example.com http://other.example", "http://example.com/", "example.com", "", "NULL",
           "http://user@example.com", "http://exa mple", "moz-extension://abc", "http://example.com:x", "null null", "http://"]
ACAO = ["*", "null", "NULL", "http://example.com", "http://EXAMPLE.com", "http://example.com:80", "http://example.com:8080",
        "http://example.com/", "https://example.com", "http://example.com, http://b", "http://example.com http://b", "* ",
        "http://example.com:0", "http://a", "x", "**", "http://[::1]:3000", "moz-extension://abc", "http://other.example",
        "http://example.com:", "http://[::1]", "ftp://example.com"]
NAMES = {"origin": ORIGINS, "access-control-request-method": ["POST", "PUT", ""],
         "access-control-request-headers": ["x-a", "x-a, x-b", ""]}
RES = {"access-control-allow-origin": ACAO, "access-control-allow-headers": ["x", "*", ""],
       "access-control-allow-methods": ["GET", "GET, PUT", ""], "access-control-max-age": ["5", "x", "-1", ""]}


def gen(rng):
    def origin():
        if rng.random() < 0.3:
            return rng.choice(ORIGINS)
        return rng.choice(["http", "https", "HTTP", "ftp"]) + "://" + rng.choice(HOSTS) + rng.choice(
            ["", "", ":80", ":443", ":1", f":{rng.randint(0, 70000)}"])

    req = None
    if rng.random() < 0.85:
        req = []
        for n in NAMES:
            if rng.random() < (0.75 if n == "origin" else 0.5):
                req.append([C.randcase(rng, n), origin() if n == "origin" else rng.choice(NAMES[n])])
                if rng.random() < 0.08:
                    req.append([C.randcase(rng, n), origin() if n == "origin" else rng.choice(NAMES[n])])
        rng.shuffle(req)
    res = []
    for n in RES:
        if rng.random() < (0.8 if n.endswith("origin") else 0.35):
            v = rng.choice(RES[n])
            if n.endswith("origin") and req and rng.random() < 0.5:
                o = [x[1] for x in req if x[0].lower() == "origin"]
                v = rng.choice([o[0], o[0].lower(), o[0].upper()]) if o else origin()
            res.append([C.randcase(rng, n), v])
    if rng.random() < 0.3:
        res.append(["Vary", "Origin"])
    rng.shuffle(res)
    return {"method": rng.choice(METHODS[:1] * 4 + METHODS), "req": req, "res": res}


def directed():
    for m in METHODS:
        for k in range(8):
            req = [[n, NAMES[n][1] if n != "origin" else "http://example.com"] for i, n in enumerate(NAMES) if k >> i & 1]
            yield {"method": m, "req": req, "res": [[n, RES[n][0]] for n in RES]}
            for n in RES:
                yield {"method": m, "req": req, "res": [[n.title(), RES[n][1]]]}
    for o in ORIGINS + ["\x00"]:
        for a in ACAO:
            yield {"method": "GET", "req": [["Origin", o]], "res": [["Access-Control-Allow-Origin", a]]}
    for a in ACAO:
        yield {"method": "GET", "req": [], "res": [["Access-Control-Allow-Origin", a]]}
        yield {"method": "GET", "req": None, "res": [["Access-Control-Allow-Origin", a]]}


def first(lines, name):
    got = [v.strip() for n, v in lines if n.lower() == name]
    return got[0] if got else None


def has(lines, name):
    return first(lines, name) is not None


def origin_of(v):
    """the origin's serialisation; a null or malformed one is null"""
    v = v.split(" ")[0]
    if v == "null" or not GR.accepts("serialized-origin", v):
        return "null"
    scheme, rest = v.lower().split("://", 1)
    if rest.startswith("["):
        host, _, port = rest.rpartition("]")
        host, port = host + "]", port[1:]
    else:
        host, _, port = rest.partition(":")
    return SP.serialise(scheme, host, int(port) if port else None)


def check(case):
    req, res = case["req"], case["res"]
    sc = C.response(res, req=None if req is None else C.request(req, method=case["method"]))
    import scenario
    lint, rlint = scenario.run(sc)
    out = []
    if req is not None:
        want = SP.request_notes(case["method"], lambda n: has(req, n))
        got = C.names(rlint, SP.REQUEST_NOTES)
        out += C.diff("request", f"preflight notes of the request for {case}", sorted(got), sorted(want))
    pre = req is not None and bool(SP.is_preflight(case["method"], lambda n: has(req, n)))
    acao = first(res, "access-control-allow-origin")
    want, listed = SP.response_notes(pre, lambda n: has(res, n), acao)
    got = C.names(lint, SP.RESPONSE_NOTES)
    out += C.diff("response", f"CORS notes of the response for {case}", sorted(got), sorted(want))
    for n in C.by_name(lint, "CORS_PREFLIGHT_ONLY"):
        out += C.diff("listed", f"fields listed for {case}", n.vars.get("headers"), ", ".join(listed))
    want = []
    if acao is not None and req is not None and has(req, "origin"):
        want = [SP.origin_note(acao, origin_of(first(req, "origin")))]
    out += C.diff("origin", f"origin note for {case}", C.names(lint, SP.ORIGIN_NOTES), want)
    return out


def from_witness(w):
    if "value" in w:
        return {"method": "GET", "req": [["Origin", w["value"]]], "res": [["Access-Control-Allow-Origin", "null"]]}
    if "origin" in w:
        o = w["origin"]
        if o is None:
            req = []
        elif o == "null":
            req = [["Origin", "null"]]
        else:
            req = [["Origin", SP.serialise(o[0], o[1], o[2])]]
        return {"method": "GET", "req": req, "res": [["Access-Control-Allow-Origin", w["acao"]]]}
    val = lambda n: "http://a" if n == "origin" else "1" if n.endswith("age") else w.get("acao") or "x" if n.endswith("allow-origin") else "x"
    return {"method": w.get("method") or "GET", "req": [[n, val(n)] for n in w.get("req", [])] if w.get("known", True) else None,
            "res": [[n, val(n)] for n in w.get("res", [])]}
