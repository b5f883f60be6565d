"""P17: status code notes."""
import common as C
from spec import status as SP
from spec.ranges import decimal

REQ = sorted({"expect", "upgrade", "range"} | set(SP.NEGOTIATION) | set(SP.PRECONDITION))
VALUES = {"range": "bytes=0-1", "if-modified-since": "Sun, 06 Nov 1994 08:49:37 GMT", "upgrade": "websocket",
          "if-unmodified-since": "Sun, 06 Nov 1994 08:49:37 GMT", "accept": "text/html", "location": "/x",
          "content-range": "bytes 0-1/2", "date": "Sun, 06 Nov 1994 08:49:37 GMT", "content-type": "text/html",
          "content-encoding": "gzip", "content-language": "en"}
RES = ["location", "content-range", "date", "allow", "content-type", "content-encoding", "content-language"]
EXPECT = ["100-continue", "100-Continue", "100-CONTINUE", "x", "x, 100-continue", "100-continue, x", "100-continuex", ""]
METHODS = ["GET", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "DELETE", "get", "request", "Post", ""]
WEIRD = ["999", "0", "600", "299", "102", "1", "099", "abc", "-200", "+200", "2_00", " 200", "", "\u00b2", "20", "2000",
         "9" * 5000, "200.0", "None", "__init__", "427", "430", "509", "225", "309", "419", "420"]


def gen(rng):
    st = str(rng.choice(sorted(SP.REGISTERED))) if rng.random() < 0.4 else rng.choice(
        ["100", "101", "201", "206", "301", "302", "303", "307", "308", "304", "405", "406", "412", "416", "417"])
    if rng.random() < 0.12:
        st = rng.choice(WEIRD + [str(rng.randint(0, 1200))])
    res = []
    for n in RES:
        if rng.random() < 0.4:
            res.append([C.randcase(rng, n), VALUES.get(n, ", ".join(
                rng.choice(METHODS[:-1]) for _ in range(rng.choice([1, 1, 2, 4]))))])
    rng.shuffle(res)
    req = None
    if rng.random() < 0.75:
        names = [n for n in REQ if rng.random() < 0.15]
        if rng.random() < 0.3:
            names.append("expect")
        req = [[C.randcase(rng, n), rng.choice(EXPECT) if n == "expect" else VALUES.get(n, '"x"') if rng.random() < 0.9 else ""]
               for n in names]
        rng.shuffle(req)
    return {"status": st, "res": res, "req": req, "method": rng.choice(METHODS)}


def directed():
    for st in sorted(SP.REGISTERED):
        yield {"status": str(st), "res": [], "req": None, "method": "GET"}
        yield {"status": str(st), "res": [], "req": [], "method": "GET"}
        yield {"status": str(st), "res": [[n, VALUES.get(n, "GET, HEAD")] for n in RES], "req": [], "method": "GET"}
        for n in REQ:
            yield {"status": str(st), "res": [], "req": [[n.title(), VALUES.get(n, "100-Continue")]], "method": "POST"}
        for n in RES:
            yield {"status": str(st), "res": [[n.title(), VALUES.get(n, "POST")]], "req": [], "method": "POST"}
    for w in WEIRD + [str(i) for i in range(0, 1000, 7)] + [str(i) for i in range(100, 600)]:
        yield {"status": w, "res": [], "req": None, "method": "GET"}
    for e in EXPECT:
        for st in ("100", "417"):
            yield {"status": st, "res": [], "req": [["Expect", e]], "method": "POST"}
    for m in METHODS:
        for st in ("201", "405"):
            for allow in ("GET", m or "GET", "request", "get, POST"):
                yield {"status": st, "res": [["Allow", allow]], "req": [], "method": m}
                yield {"status": st, "res": [["Allow", allow]], "req": None, "method": m}


class Facts:
    def __init__(self, c):
        self.request = c["req"] is not None
        self.method = c["method"]
        self.lines = c["req"] or []
        self.parsed = {n.lower() for n, _ in c["res"]}
        self.allow = [x.strip() for n, v in c["res"] if n.lower() == "allow" for x in v.split(",")]

    def req(self, name):
        return any(n.lower() == name for n, _ in self.lines)

    @property
    def continue_expected(self):
        return any(x.strip().lower() == "100-continue" for n, v in self.lines if n.lower() == "expect" for x in v.split(","))

    def res(self, name):
        return name in self.parsed

    @property
    def method_allowed(self):
        return self.method in self.allow


def check(c):
    st = c["status"]
    req = None if c["req"] is None else C.request(c["req"], method=c["method"])
    lint = C.lint(C.response(c["res"], status=st, req=req))
    code = decimal(st)
    if any(ord(x) > 127 for x in st):
        code = None
    out = C.diff("status-notes", f"notes for status {st[:20]}", sorted(C.names(lint, SP.NOTES)),
                 sorted(SP.status_notes(code, Facts(c))))
    out += C.diff("status-code", "status code", lint.status_code, code)
    return out + C.diff("status-int", "non-numeric notes", C.count(lint, "STATUS_CODE_NON_NUMERIC"), int(code is None))


def from_witness(w):
    w = w or {}
    if "text" in w:
        yield {"status": w["text"], "res": [], "req": None, "method": "GET"}
    elif "status" in w:
        st = "x" if w["status"] is None else str(w["status"])
        m = w.get("method") or "GET"
        res = [[n, VALUES.get(n, (m if w.get("allowed") else "FOO"))] for n in w.get("res") or []]
        if not w.get("request"):
            yield {"status": st, "res": res, "req": None, "method": m}
            return
        for e in ("100-continue", "x", "100-Continue"):
            yield {"status": st, "res": res, "req": [[n, e if n == "expect" else VALUES.get(n, '"x"')] for n in w.get("req") or []],
                   "method": m}


MIN_STR = False
KEEP = ("status", "method")
