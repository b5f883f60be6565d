"""Cases and views for the cache properties (P04, P05, P06)."""
import datetime

from scenario import run
from spec import cache as SP

EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
WD = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MO = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def imf(t):
    d = EPOCH + datetime.timedelta(seconds=t)
    return f"{WD[d.weekday()]}, {d.day:02} {MO[d.month - 1]} {d.year:04} {d.hour:02}:{d.minute:02}:{d.second:02} GMT"


MINT = -2208988800  # 1900
MAXT = 253402300799

CCS = ["no-store", "private", "public", "no-cache", "max-age", "s-maxage", "must-revalidate",
       "proxy-revalidate", "stale-while-revalidate", "stale-if-error"]
DELTA = {"max-age", "s-maxage", "stale-while-revalidate", "stale-if-error"}
T0 = 1700000000
ODD = ["no-transform", "immutable", "foo", "foo=bar"]


def case_of(rng, s):
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def name(rng, n):
    r = rng.random()
    return n if r < 0.6 else n.lower() if r < 0.75 else n.upper() if r < 0.85 else case_of(rng, n)


def gen(rng):
    num = lambda: rng.choice([0, 1, 2, 5, 9, 10, 11, 59, 60, 61, 100, 3600, 2**31 - 1, 2**31, 2**31 + 1, 10**12,
                              rng.randrange(200)])
    cc = []
    dens = rng.choice([0.08, 0.2, 0.4])
    for d in CCS:
        while rng.random() < dens:
            cc.append([name(rng, d), str(num()) if d in DELTA else rng.choice([None, None, None, '"foo"'])
                       if d in ("private", "no-cache") else None])
            if rng.random() < 0.8:
                break
    if rng.random() < 0.1:
        cc.append([rng.choice(ODD), None])
    rng.shuffle(cc)
    t = rng.choice([None, 0, T0, T0 + 0.5, T0 + 10])
    date = rng.choice([None, None, "bad", T0, T0 - 5, T0 - 1, T0 + 7, T0 - 100, T0 + 5, 0, rng.randrange(T0 - 300, T0 + 300)])
    expires = rng.choice([None, None, "bad", "0", "-1", T0, T0 + 100, T0 - 100, 0, 1, T0 + 5, rng.randrange(T0 - 300, T0 + 300)])
    req = None
    if rng.random() < 0.6:
        req = {"method": rng.choice([None, "GET", "HEAD", "GET", "GET", "POST", "get", "PUT", "OPTIONS", "head", "X", ""]),
               "time": rng.choice([None, 0, T0, T0 - 3, T0 + 20, T0 - 60.25]),
               "auth": rng.choice([None, None, name(rng, "Authorization")])}
    return {
        "cc": cc, "split": rng.random() < 0.3, "date": date, "expires": expires,
        "age": rng.choice([None, None, "0", "1", "5", "10", "61", "100", str(num()), "bad", "-1"]),
        "lm": rng.choice([None, None, T0 - 1000, "bad"]), "etag": rng.choice([None, None, '"a"', 'W/"a"']),
        "vary": rng.choice([None, None, None, "*", "Accept", "Accept, *", "accept-encoding", "*, foo"]),
        "status": rng.choice([200, 200, 203, 206, 300, 301, 410, 204, 302, 304, 404, 201, 308, 500, 405, 414, 501, 307]),
        "time": t, "req": req,
        "names": [name(rng, n) for n in ("Date", "Expires", "Last-Modified", "Age", "ETag", "Vary", "Cache-Control")],
        "filler": rng.random() < 0.3,
    }


def scenario(c):
    nd, ne, nl, na, nt, nv, nc = c["names"]
    h = []
    if c.get("filler"):
        h.append(["X-Foo", "1"])
    f = lambda v: imf(v) if isinstance(v, int) else v
    for n, k in ((nd, "date"), (ne, "expires"), (nl, "lm")):
        if c[k] is not None:
            h.append([n, f(c[k])])
    if c["age"] is not None:
        h.append([na, c["age"]])
    if c["etag"] is not None:
        h.append([nt, c["etag"]])
    if c["vary"] is not None:
        h.append([nv, c["vary"]])
    ds = [d if v is None else f"{d}={v}" for d, v in c["cc"]]
    if ds:
        if c["split"]:
            h += [[nc, d] for d in ds]
        else:
            h.append([nc, ", ".join(ds)])
    sc = {"kind": "response", "topline": ["HTTP/1.1", str(c["status"]), "x"], "headers": h, "start_time": c["time"],
          "body": []}
    if c["status"] is None:
        sc["topline"] = None
    r = c["req"]
    if r is not None:
        rh = [["Host", "example.com"], ["User-Agent", "x"]]
        if r["auth"]:
            rh.append([r["auth"], "Basic eDp5"])
        sc["request"] = {"kind": "request", "topline": None if r["method"] is None else [r["method"], "http://example.com/", "HTTP/1.1"],
                         "headers": rh, "start_time": r["time"], "body": []}
    return sc


class Req:
    def __init__(self, r):
        self.method, self.time, self.auth = r["method"], r["time"], r["auth"]

    def text(self, n):
        return n == "authorization" and bool(self.auth)


class View:
    def __init__(self, c):
        self.c = c
        self.star = c["vary"] is not None and "*" in [x.strip() for x in c["vary"].split(",")]
        self.req = Req(c["req"]) if c["req"] is not None else None
        self.status, self.time = c["status"], c["time"]
        f = lambda v: v if isinstance(v, int) else None
        self.date, self.expires, self.lm = f(c["date"]), f(c["expires"]), f(c["lm"])
        self.age = int(c["age"]) if c["age"] is not None and c["age"].isdigit() else None
        self.etag = c["etag"] if c["etag"] not in (None, "bad") else None
        self.d = {}
        for n, v in c["cc"]:
            n = n.lower()
            self.d[n] = int(v) if n in DELTA else v

    def text(self, n):
        return self.c[{"date": "date", "expires": "expires", "last-modified": "lm"}[n]] is not None

    def cc(self, n):
        return n in self.d

    def ccval(self, n):
        return self.d[n]


def execute(c):
    lint, req = run(scenario(c))
    return lint, req, View(c)


def names(lint, s):
    return [type(n).__name__ for n in lint.notes if type(n).__name__ in s]


def from_witness(w):
    """cases for a counterexample of the verifier"""
    if not isinstance(w, dict) or "cc" not in w:
        return []
    cc = []
    for n, v in w["cc"].items():
        if n in DELTA:
            cc.append([n, str(0 if v is None else v)])
        else:
            cc.append([n, None])
    p, t = w.get("parsed", {}), w.get("text", {})
    ok = lambda v: isinstance(v, int) and MINT <= v <= MAXT

    def field(k):
        if k in p:
            return "bad" if p[k] is None else p[k] if ok(p[k]) else T0
        return "bad" if t.get(k) else None

    req = None
    if w.get("request") is not None:
        m = w["request"]["method"]
        if m is not None and not (m.isascii() and m.isprintable()):
            m = "X"
        req = {"method": m, "time": w["request"]["time"],
               "auth": "Authorization" if w.get("reqtext", {}).get("authorization") else None}
    base = {
        "cc": cc, "split": False, "date": field("date"), "expires": field("expires"), "lm": field("last-modified"),
        "age": None if "age" not in p else "bad" if p["age"] is None else str(p["age"]),
        "etag": None if "etag" not in p else None if p["etag"] is None else '"a"',
        "vary": "*" if w.get("star") else None, "status": w["status"] if w["status"] is None or 100 <= w["status"] <= 999 else 299,
        "time": w["time"], "req": req,
        "names": ["Date", "Expires", "Last-Modified", "Age", "ETag", "Vary", "Cache-Control"], "filler": False,
    }
    # the response must be storable for the later verdicts to show
    out = [base]
    for extra in (["public", None], ["max-age", "10"]):
        if not any(d[0] == extra[0] for d in cc):
            out.append(dict(base, cc=cc + [extra]))
    out += [dict(c, req=dict(c["req"], method="GET")) for c in out if c["req"]]
    return out


KEEP = {"names", "req"}
