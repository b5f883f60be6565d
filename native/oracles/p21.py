"""P21: character-set verdicts."""
import codecs
import chardet
import common as C

LIMIT = 120
NOTES = {"CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH", "CHARSET_UNDECODABLE"}
TYPES = ["text/plain", "text/html", "application/json", "text/json", "application/ld+json", "image/svg+xml", "text/css",
         "application/problem+json", "application/jsonx", "application/xml", "text/x+json", "a/b", "json/json", "application/x-json",
         "multipart/json", "+json/text", "text/json+xml"]
CHARSETS = ["utf-8", "UTF-8", "iso-8859-1", "latin-1", "windows-1252", "utf8", "us-ascii", "utf-16", "gb18030", "shift_jis", "euc-jp",
            "koi8-r", "big5", "utf-16-le", "windows-1251", "x-none", "hex", "", "undefined", "utf-7", "euc-kr", "utf-8-sig", "utf_8"]
TEXTS = ["caf\xe9 na\xefve r\xe9sum\xe9 d\xe9j\xe0 vu, gar\xe7on ", "\u041f\u0440\u0438\u0432\u0435\u0442 \u043c\u0438\u0440, \u043a\u0430\u043a \u0434\u0435\u043b\u0430 ",
         "\u3053\u3093\u306b\u3061\u306f\u4e16\u754c\u3002\u65e5\u672c\u8a9e\u306e\u6587\u7ae0\u3067\u3059\u3002", "\u4f60\u597d\u4e16\u754c\u6211\u4eec ",
         "\U0001f600\U0001f601", "\xa9", "\u20ac 5 \u201cx\u201d ", "\uc548\ub155\ud558\uc138\uc694 ", "hello world ", " \t\n"]
STATUS = [200, 200, 200, 200, 404, 203, 201, 204, 205, 206, 304, 100, 101, 150, 198, 199, 207, 300, 99, 226]


def gen(rng):
    r = rng.random()
    enc = rng.choice(["utf-8", "utf-8", "utf-8", "latin-1", "windows-1252", "koi8-r", "shift_jis", "gb18030", "utf-16", "euc-jp", "big5"])
    n = rng.choice([0, 1, 2, 10, 40, 200, 200, 200, 8189, 8190, 8191, 8192, 8193, 8194, 8195, 9000, 20000])
    return {"type": C.randcase(rng, rng.choice(TYPES)) if r < 0.95 else None,
            "charset": rng.choice(CHARSETS) if rng.random() < 0.65 else None,
            "form": rng.choice(["token", "token", "quoted", "extra"]),
            "text": rng.randrange(len(TEXTS)), "enc": enc, "shift": rng.choice([0, 0, 1, 2, 3]), "n": n,
            "junk": rng.choice([None, None, None, "\xff", "\x80", "\xc3", "\xed\xa0\x80"]), "at": rng.choice(["start", "end", "8190", "8191", "mid", "8193"]),
            "status": rng.choice(STATUS), "head": rng.random() < 0.08, "chunk": rng.choice([0, 0, 1000, 8192, 8191]), "no_content": rng.random() < 0.05}


def content(c):
    unit = TEXTS[c["text"]]
    n = c["n"]
    data = b"a" * c["shift"] + (unit * (n // max(1, len(unit)) + 1)).encode(c["enc"], "ignore")
    data = data[:n]
    if c["n"] < 8180:  # no character cut off at the content's own end
        data = data.decode(c["enc"], "ignore").encode(c["enc"], "ignore")
    if c.get("junk"):
        j = c["junk"].encode("latin-1")
        at = {"start": 0, "end": len(data), "mid": len(data) // 2}.get(c["at"])
        at = min(int(c["at"]), len(data)) if at is None else at
        data = data[:at] + j + data[at:]
    return data


def header(c):
    out = c["type"]
    if c["form"] == "extra":
        out += "; x=y"
    if c["charset"] is not None:
        v = c["charset"]
        out += f'; charset="{v}"' if c["form"] == "quoted" or not v else f"; charset={v}"
    return out


def text(data, enc, cut):
    """the characters, without one that the sample's end cuts off; None if the bytes are not in that encoding"""
    try:
        data.decode(enc)  # also refuses what is no character encoding, with a LookupError
        return data, data.decode(enc)
    except UnicodeError:
        if not cut:
            return None
    d = codecs.getincrementaldecoder(enc)()
    try:
        d.decode(data)
    except UnicodeError:
        return None
    whole = data[:len(data) - len(d.getstate()[0])]
    return whole, whole.decode(enc)


def expected(c, data):
    sample = data[:8192]
    if c["no_content"] or c["head"] or c["status"] in (204, 205, 206, 304) or 100 <= c["status"] <= 199 or c["type"] is None:
        return None
    t = c["type"].lower()
    if t in ("application/json", "text/json") or t.split("/", 1)[1].endswith("+json"):
        enc = "utf-8"
    elif t.startswith("text/") and c["charset"]:
        enc = c["charset"]
    else:
        return None
    try:
        mine = codecs.lookup(enc).name
        "a".encode("ascii").decode(mine, "ignore")
    except LookupError:
        return None
    except UnicodeError:
        pass
    if not sample.strip() or sample.isascii():
        return None
    got = text(sample, enc, len(data) > len(sample))
    if got is None:
        return "CHARSET_UNDECODABLE"
    whole, chars = got
    d = chardet.detect(whole)
    if not d["encoding"] or (d["confidence"] or 0) < 0.5:
        return None
    try:
        other = codecs.lookup(d["encoding"]).name
    except LookupError:
        return None
    if other == mine:
        return None
    try:
        if whole.decode(other) == whole.decode(mine):
            return None
    except (UnicodeError, LookupError):
        pass
    return "CHARSET_MISMATCH" if c["charset"] is not None else "CHARSET_IMPLICIT_MISMATCH"


def check(c):
    data = content(c)
    hs = [["Content-Type", header(c)]] if c["type"] is not None else []
    sc = C.response(hs, status=c["status"], is_head=c["head"])
    step = c["chunk"] or len(data) or 1
    sc.update(body=[data[i:i + step].decode("latin-1") for i in range(0, len(data), step)], no_content=c["no_content"])
    lint = C.lint(sc)
    got = sorted(C.names(lint, NOTES))
    want = expected(c, data)
    return C.diff(f"verdict-{want or (got or ['none'])[0]}", f"verdict on {len(data)} bytes {data[:30]!r} as {hs}, status {c['status']}", got, [want] if want else [])


def directed():
    base = {"type": "text/plain", "charset": "utf-8", "form": "token", "text": 0, "enc": "utf-8", "shift": 0, "n": 200, "junk": None,
            "at": "end", "status": 200, "head": False, "chunk": 0, "no_content": False}
    for st in sorted(set(STATUS)) + [102, 103, 180, 500]:
        yield dict(base, status=st, junk="\xff")
    for t in TYPES:
        for cs in CHARSETS + [None]:
            yield dict(base, type=t, charset=cs, enc="latin-1")
            yield dict(base, type=t, charset=cs)
    for i in range(len(TEXTS)):
        for n in range(8186, 8200):
            for sh in range(4):
                yield dict(base, text=i, n=n, shift=sh)
        for n in range(8190, 8196):
            for enc in ("gb18030", "shift_jis", "utf-16", "euc-jp"):
                yield dict(base, text=i, n=n, enc=enc, charset=enc)
            for j in ("\xff", "\xc3"):
                for at in ("8190", "8191", "8192"):
                    yield dict(base, text=i, n=n, junk=j, at=at)


def from_witness(w):
    base = {"type": w.get("type") if w.get("has_type", True) else None, "charset": w.get("charset"), "form": "token", "text": 0, "enc": "latin-1",
            "shift": 0, "n": 200, "junk": "\xff", "at": "start", "status": w.get("status") or 200, "head": False, "chunk": 0, "no_content": False}
    if base["type"] is not None and "/" not in base["type"]:
        base["type"] = "text/plain"
    return base
