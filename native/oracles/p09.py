"""P09: decoding of content codings."""
import hashlib
import random
import zlib
import brotli
import common as C
import scenario
from spec import gzip as SP

NOTES = {"BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT"}
LIMIT = 100 * 1024 * 1024


def body_of(spec):
    kind, n, seed = spec
    if kind == "zeros":
        return b"a" * n
    return random.Random(seed).randbytes(n)


def gzip_member(data, h):
    flags, out = 0, b""
    if h.get("extra") is not None:
        flags |= 4
        e = h["extra"].encode("latin-1")
        out += len(e).to_bytes(2, "little") + e
    if h.get("name") is not None:
        flags |= 8
        out += h["name"].encode("latin-1").replace(b"\0", b"") + b"\0"
    if h.get("comment") is not None:
        flags |= 16
        out += h["comment"].encode("latin-1").replace(b"\0", b"") + b"\0"
    if h.get("hcrc"):
        flags |= 2
        out += b"\x12\x34"
    flags |= h.get("text", 0) | h.get("reserved", 0)
    c = zlib.compressobj(h.get("level", 6), zlib.DEFLATED, -15)
    z = c.compress(data) + c.flush()
    tail = b"" if h.get("notail") else zlib.crc32(data).to_bytes(4, "little") + (len(data) & 0xFFFFFFFF).to_bytes(4, "little")
    return b"\x1f\x8b\x08" + bytes([flags]) + b"\0\0\0\0\2\3" + out + z + tail


def encode(data, codings):
    for c in codings:
        n = c["name"].lower()
        if n in ("gzip", "x-gzip"):
            data = gzip_member(data, c)
        elif n == "br":
            data = brotli.compress(data, quality=c.get("q", 1))
    return data


def split(data, cuts):
    pts = sorted({min(len(data), x) for x in cuts})
    out, a = [], 0
    for p in pts:
        out.append(data[a:p])
        a = p
    return out + [data[a:]]


def gen(rng):
    cod = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        n = rng.choice(["gzip", "gzip", "x-gzip", "br", "br", "GZip", "deflate", "identity", "foo"])
        d = {"name": n}
        if n.lower() in ("gzip", "x-gzip"):
            for k, v in (("extra", lambda: "".join(chr(rng.choice([0, 1, 65, 255])) for _ in range(rng.choice([0, 1, 2, 5, 300])))),
                         ("name", lambda: "n" * rng.choice([0, 1, 7])), ("comment", lambda: "c" * rng.choice([0, 1, 9])),
                         ("hcrc", lambda: True), ("text", lambda: 1), ("notail", lambda: True)):
                if rng.random() < 0.3:
                    d[k] = v()
            d["level"] = rng.choice([0, 1, 6, 9])
        cod.append(d)
    n = rng.choice([0, 1, 5, 100, 8191, 8192, 8193, 20000])
    body = [rng.choice(["zeros", "random"]), n, rng.randrange(99)]
    hurt = None
    if rng.random() < 0.25:
        hurt = [rng.choice(["flip", "cut", "junk", "prefix"]), rng.randint(0, 40), rng.randint(1, 255)]
    cuts = [rng.choice([rng.randint(0, 30), rng.randint(0, 30), rng.randint(0, n + 60)]) for _ in range(rng.choice([0, 0, 1, 2, 5, 12]))]
    if rng.random() < 0.1:
        cuts = list(range(60))
    return {"codings": cod, "body": body, "hurt": hurt, "cuts": cuts}


def directed():
    flags = [("extra", "ab"), ("name", "n"), ("comment", "cc"), ("hcrc", True)]
    for m in range(16):
        h = {"name": "gzip"}
        for i, (k, v) in enumerate(flags):
            if m >> i & 1:
                h[k] = v
        for cuts in ([], list(range(40)), [10], [11], [12], [14]):
            yield {"codings": [h], "body": ["zeros", 50, 0], "hurt": None, "cuts": cuts}
    for text in (1, 0):
        yield {"codings": [{"name": "gzip", "text": text, "reserved": 0xE0}], "body": ["zeros", 5, 0], "hurt": None, "cuts": []}
    for n in (1 << 20, (1 << 20) + 1, 3 << 20, (1 << 20) * 2 - 1):
        for name in ("gzip", "br"):
            yield {"codings": [{"name": name}], "body": ["zeros", n, 0], "hurt": None, "cuts": [12, 500, 1200]}
            yield {"codings": [{"name": name}], "body": ["zeros", n, 0], "hurt": None, "cuts": []}
    yield {"codings": [{"name": "gzip", "level": 0}], "body": ["random", 3 << 20, 0], "hurt": None, "cuts": [1 << 20, 2 << 20]}
    for n in (LIMIT, LIMIT + 1, LIMIT + (1 << 20)):
        yield {"codings": [{"name": "gzip"}], "body": ["zeros", n, 0], "hurt": None, "cuts": [100, 60000]}
        yield {"codings": [{"name": "br"}], "body": ["zeros", n, 0], "hurt": None, "cuts": [20, 40]}
    yield {"codings": [{"name": "gzip"}, {"name": "gzip"}], "body": ["zeros", LIMIT + 1, 0], "hurt": None, "cuts": [100]}


def reference(wire, codings):
    """(decoded prefix that must at least appear, decoded, error expected) by independent means"""
    data, bad = wire, None
    for c in reversed(codings):
        n = c["name"].lower()
        if n in ("gzip", "x-gzip"):
            st, off = SP.header(data)
            if st != "ok":
                return b"", ["BAD_GZIP"] if st == "bad" else []
            d = zlib.decompressobj(-15)
            try:
                data = d.decompress(data[off:]) + d.flush()
            except zlib.error:
                return None, ["BAD_ZLIB"]
        elif n == "br":
            if data == b"":
                continue
            try:
                data = brotli.Decompressor().process(data)
            except brotli.error:
                return None, ["BAD_BROTLI"]
        if len(data) > LIMIT:
            return None, ["DECOMPRESSION_LIMIT"]
    return data, []


def check(c):
    if "raw" in c:
        return check_wire(dict(c, codings=[{"name": "gzip"}], hurt=True), b"", bytes(c["raw"]))
    data = body_of(c["body"])
    wire = encode(data, c["codings"])
    if c["hurt"]:
        k, at, x = c["hurt"]
        if k == "flip" and wire:
            at %= len(wire)
            wire = wire[:at] + bytes([wire[at] ^ x]) + wire[at + 1:]
        elif k == "cut":
            wire = wire[:at]
        elif k == "junk":
            wire = wire + bytes([x]) * 3
        elif k == "prefix":
            wire = bytes([x]) + wire
    return check_wire(c, data, wire)


def check_wire(c, data, wire):
    from httplint import HttpResponseLinter
    lint = HttpResponseLinter()
    lint.process_response_topline(b"1.1", b"200", b"OK")
    hs = []
    if c["codings"]:
        hs.append((b"Content-Encoding", ", ".join(x["name"] for x in c["codings"]).encode()))
    lint.process_headers(hs)
    got = bytearray()
    lint.decoded.processors.append(got.extend)
    for ch in split(wire, c["cuts"]):
        lint.feed_content(ch)
    lint.finish_content(True)
    names = C.names(lint, NOTES)
    got = bytes(got)
    out = []
    if lint.decoded.length != len(got) or lint.decoded.hash != hashlib.md5(got).digest():
        out.append(("decoded-account", "decoded length or hash does not describe the decoded bytes"))
    if len(got) > LIMIT:
        out.append(("limit", f"{len(got)} decoded bytes passed on"))
    if len(c["codings"]) == 0 and got != wire:
        out.append(("identity", "content without a coding is changed"))
    want, notes = reference(wire, c["codings"])
    if c["hurt"]:
        # a fault in one coding may keep a later one from getting any further: only counts are judged
        if len(names) > len(c["codings"]) or any(names.count(x) > sum(1 for y in c["codings"]) for x in names):
            out.append(("notes-many", f"{names}"))
        if len(c["codings"]) == 1 and (want is not None or notes):
            out += C.diff("error-notes", "decoding notes", names, notes)
        if want is not None and not notes and len(c["codings"]) <= 1 and got != want:
            out.append(("decoded", f"decoded {len(got)} bytes, expected {len(want)}"))
        return out
    out += C.diff("notes", "decoding notes", names, notes)
    if want is not None:
        if got != want or want != data:
            out.append(("decoded", f"decoded {len(got)} bytes ({got[:20]!r}...), expected {len(data)}"))
    return out


def from_witness(w):
    w = w or {}
    if "content" in w:
        b = w["content"]
        for extra in ([], list(zlib.compress(b"abc", wbits=-15))):
            for cuts in ([], list(range(len(b)))):
                yield {"raw": b + extra, "cuts": cuts}
    if "kind" in w:
        yield from directed()


KEEP = ("codings", "body", "cuts", "raw")
