"""P07: content accounting does not depend on chunking."""
import hashlib
import common as C
import scenario
import p09
import corpus

CONTENT_NOTES = {"CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED", "BAD_GZIP", "BAD_ZLIB",
                 "BAD_BROTLI", "DECOMPRESSION_LIMIT", "CONTENT_TYPE_MISMATCH", "CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH",
                 "CHARSET_UNDECODABLE"}
TYPES = ["text/html", "text/plain; charset=utf-8", "application/json", "image/png", "text/plain; charset=iso-8859-1", "text/css"]


def body(spec):
    kind, n, seed = spec
    if kind == "text":
        return ("<!doctype html><p>caf\xe9 \u20ac \u4e2d " * (n // 20 + 1)).encode("utf-8")[:n]
    if kind == "latin":
        return ("tr\xe8s \xe9l\xe9gant " * (n // 10 + 1)).encode("latin-1")[:n]
    if kind == "png":
        return (b"\x89PNG\r\n\x1a\n" + b"\0" * n)[:n]
    return p09.body_of(spec)


def gen(rng):
    c = p09.gen(rng)
    c["codings"] = c["codings"][:rng.choice([0, 0, 1, 1, 2])]
    n = rng.choice([0, 1, 2, 50, 4096, 8191, 8192, 8193, 8200, 16384, 30000])
    c["body"] = [rng.choice(["text", "latin", "png", "zeros", "random"]), n, rng.randrange(99)]
    c["cuts"] = [rng.choice([0, 1, rng.randint(0, n + 20), 8191, 8192, 8193, n - 1, n]) for _ in range(rng.choice([0, 1, 2, 4, 9]))]
    c["cuts"] = [max(0, x) for x in c["cuts"]]
    hs = []
    if rng.random() < 0.6:
        hs.append(["Content-Type", rng.choice(TYPES)])
    if rng.random() < 0.5:
        hs.append(["Content-Length", str(rng.choice([n, n, n + 1, 0]))])
    c["headers"] = hs
    c["kind"] = rng.choice(["response", "response", "request"])
    c["method"] = rng.choice(["GET", "POST"])
    c["status"] = rng.choice(["200", "200", "304", "204", "206"])
    c["head"] = rng.random() < 0.1
    c["no_content"] = rng.random() < 0.12
    return c


def directed():
    for n in (0, 1, 8191, 8192, 8193, 16385):
        for cuts in ([], [0, 0], [1], [8191], [8192], [8193], [4096, 8192], list(range(0, 40)), [n - 1], [n]):
            for cod in ([], [{"name": "gzip"}], [{"name": "br"}], [{"name": "gzip"}, {"name": "br"}]):
                for nc in (False, True):
                    yield {"codings": cod, "body": ["text", n, 1], "hurt": None, "cuts": [max(0, x) for x in cuts],
                           "headers": [["Content-Type", "text/html; charset=utf-8"], ["Content-Length", str(n)]], "kind": "response",
                           "method": "GET", "status": "200", "head": False, "no_content": nc}


def run(c, chunks):
    hs = list(c["headers"])
    if c["codings"]:
        hs.append(["Content-Encoding", ", ".join(x["name"] for x in c["codings"])])
    if c["kind"] == "response":
        sc = C.response(hs, status=c["status"], is_head=c["head"])
    else:
        sc = C.request(hs, method=c["method"])
    sc.update(body=[x.decode("latin-1") for x in chunks], no_content=c["no_content"])
    return C.lint(sc)


def state(lint):
    return {"content_length": lint.content_length, "content_hash": lint.content_hash, "decoded.length": lint.decoded.length,
            "decoded.hash": lint.decoded.hash, "content_sample": lint.content_sample}


def notes(lint):
    return sorted((n.subject, type(n).__name__, str(sorted(map(str, n.vars.items())))) for n in scenario.all_notes(lint))


def check(c):
    data = body(c["body"])
    wire = p09.encode(data, c["codings"])
    hurt = c.get("hurt")
    if hurt and wire:
        i = hurt[1] % len(wire)
        wire = wire[:i] + bytes([wire[i] ^ hurt[2]]) + wire[i + 1:]
    one, many = run(c, [wire]), run(c, p09.split(wire, c["cuts"]))
    out = []
    a, b = state(one), state(many)
    md5 = lambda x: hashlib.md5(x).digest()
    seen = b"" if c["no_content"] else wire
    for lint, st in ((one, a), (many, b)):
        out += C.diff("length", "content_length", st["content_length"], len(wire))
        out += C.diff("hash", "content_hash", st["content_hash"], md5(seen))
        if c["no_content"]:
            out += C.diff("not-supplied", "decoded length and sample", (st["decoded.length"], st["content_sample"]), (0, b""))
            bad = [n for n in C.names(lint) if n in CONTENT_NOTES]
            if bad:
                out.append(("not-supplied", f"notes about content that was not supplied: {bad}"))
        elif not hurt:
            out += C.diff("decoded", "decoded length", st["decoded.length"], len(data))
            out += C.diff("decoded", "decoded hash", st["decoded.hash"], md5(data))
            out += C.diff("sample", "sample", st["content_sample"], data[:8192])
    failed = any(n in ("BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT") for n in C.names(one) + C.names(many))
    if not failed:
        for k in a:
            out += C.diff("chunks", f"{k} with the content in {len(c['cuts']) + 1} chunks", b[k], a[k])
        out += C.diff("chunks", "notes", notes(many), notes(one))
    else:
        out += C.diff("chunks", "notes", sorted(n for n in C.names(many, CONTENT_NOTES) if n.startswith("BAD_")),
                      sorted(n for n in C.names(one, CONTENT_NOTES) if n.startswith("BAD_"))) if len(c["codings"]) == 1 else []
    return out


def from_witness(w):
    w = w or {}
    if "sample" in w:
        n, k = min(w["sample"], 9000), min(w["chunk"], 20000)
        yield {"codings": [], "body": ["random", n + k, 3], "hurt": None, "cuts": [n], "headers": [], "kind": "response",
               "method": "GET", "status": "200", "head": False, "no_content": bool(w.get("no_content"))}
    yield from directed()


KEEP = ("codings", "body", "cuts", "kind")
