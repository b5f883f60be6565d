"""P08: Content-Length and content presence."""
import gzip
import brotli
import common as C
import scenario
from spec import content as SP
from spec.ranges import decimal

METHODS = ["GET", "HEAD", "DELETE", "CONNECT", "TRACE", "POST", "PUT", "OPTIONS", "get", "PATCH", "QUERY", ""]


def gen(rng):
    n = rng.choice([0, 0, 1, 2, 5, 10, 100, 8193])
    body = "x" * n
    chunks = []
    while body:
        k = rng.choice([1, 2, 3, len(body), len(body) // 2 + 1])
        chunks.append(body[:k])
        body = body[k:]
    if rng.random() < 0.2:
        chunks.insert(rng.randint(0, len(chunks)), "")
    hs = []
    r = rng.random()
    if r < 0.8:
        hs.append([C.randcase(rng, "Content-Length"), rng.choice([str(n), str(n), str(n), "0" + str(n), str(n + 1),
                   str(max(0, n - 1)), "0", "a", "", f"-{n}", f"{n}.0", f"{n}, {n}", "9" * 25, f" {n} "])])
        if rng.random() < 0.1:
            hs.append(["Content-Length", rng.choice([str(n), "7"])])
    if rng.random() < 0.4:
        hs.append([C.randcase(rng, "User-Agent"), rng.choice(["foo/1.0", "", "bad{"])])
    if rng.random() < 0.2:
        hs.append(["Content-Type", "text/plain"])
    coding = None
    if n and rng.random() < 0.2:
        coding = rng.choice(["gzip", "br"])
        hs.append(["Content-Encoding", coding])
    return {"kind": rng.choice(["request", "response"]), "method": rng.choice(METHODS),
            "status": rng.choice(["200", "200", "304", "204", "404", "100", "205", "abc", "303", "3040"]),
            "coding": coding, "head": rng.random() < 0.25, "no_content": rng.random() < 0.2, "headers": hs, "body": chunks,
            "trailers": rng.choice([None, None, [["X-A", "b"]], [["Content-Length", "3"]], [["User-Agent", "x"]]])}


def directed():
    for kind in ("request", "response"):
        for n in (0, 3):
            for cl in (None, "0", "3", "4", "x"):
                for m, st, h in [("GET", "200", 0), ("HEAD", "304", 0), ("DELETE", "200", 1), ("CONNECT", "204", 0),
                                 ("TRACE", "304", 1), ("POST", "206", 0)]:
                    for nc in (0, 1):
                        yield {"kind": kind, "method": m, "status": st, "head": bool(h), "no_content": bool(nc),
                               "headers": [["Content-Length", cl]] if cl is not None else [],
                               "body": ["xxx"[:n]] if n else [], "trailers": None}


    for coding in ("gzip", "br"):
        yield {"kind": "response", "method": "GET", "status": "200", "head": False, "no_content": False, "coding": coding,
               "headers": [["Content-Length", "500"], ["Content-Encoding", coding]], "body": ["x" * 500], "trailers": None}


def coded(coding, chunks):
    data = "".join(chunks).encode("latin-1")
    data = gzip.compress(data) if coding == "gzip" else brotli.compress(data, quality=1)
    return [data[:7].decode("latin-1"), data[7:].decode("latin-1")]


def check(c):
    if c.get("coding"):
        c = dict(c, body=coded(c["coding"], c["body"]))
    resp = c["kind"] == "response"
    if resp:
        sc = C.response(c["headers"], status=c["status"], is_head=c["head"])
    else:
        sc = C.request(c["headers"], method=c["method"])
    sc.update(body=c["body"], no_content=c["no_content"], trailers=c["trailers"])
    lint = C.lint(sc)
    cls = [v for n, v in c["headers"] if n.lower() == "content-length"]
    st = int(c["status"]) if c["status"].isdigit() else None
    n = sum(len(x) for x in c["body"])
    want = SP.verdict(resp, c["no_content"], n, bool(cls), decimal(cls[0].strip()) if cls else None, c["method"],
                      c["head"], st, any(k.lower() == "user-agent" for k, _ in c["headers"]))
    return C.diff("content-notes", "content notes", sorted(C.names(lint, SP.NOTES)), sorted(want)) + C.diff(
        "content-length", "content_length", lint.content_length, n)


def from_witness(w):
    w = w or {}
    if "kind" in w:
        n = w.get("received") or 0
        yield {"kind": w["kind"], "method": w.get("method") or "GET", "status": str(w.get("status")),
               "head": bool(w.get("head")), "no_content": bool(w.get("no_content")),
               "headers": ([["Content-Length", str(w["declared"])]] if w.get("has_cl") else []) + (
                   [["User-Agent", "x"]] if w.get("has_ua") else []),
               "body": ["x" * min(n, 100000)], "trailers": None}
        if w["kind"] == "response":
            yield from [x for x in directed() if x.get("coding")]


KEEP = ("kind", "method", "status")
