"""P24: parameters and media types."""
import re
import urllib.parse
import common as C
from httplint.field import utils as U
from spec import params as SP

FIELDS = {"Content-Type": ["charset"], "Content-Disposition": None, "Transfer-Encoding": True, "TE": ["q"],
          "Link": ["rel", "rev", "anchor", "hreflang", "type", "media"], "Server-Timing": ["desc"]}
NAMES = ["a", "A", "b", "a*", "B*", "charset", "charset*", "rel*", "q*", "desc*", "filename", "filename*", "Filename*", "x*", "*", "title", "TITLE*"]
STARS = ["UTF-8''x", "utf-8'en'%e2%82%ac", "UTF-8''%ff", "UTF-8''%zz", "UTF-8''a*", "''x", "iso-8859-1''%e9", "UTF-8'x", "UTF-8''a'b", "utf8''x",
         "UTF-8''", "'", "a", '"UTF-8\'\'x"', '"UTF-8\'\'a b"', "\"''\"", '""', "UTF-8''%", "UTF-8''%4", "UTF-8''%E2%82%AC%", "u'e'%c3%a9'"]
MEDIA_NOTES = {"MEDIA_TYPE_LONG_NAME", "MEDIA_TYPE_BAD_NAME", "ACCEPT_BAD_SYNTAX", "ACCEPT_PATCH_BAD_SYNTAX", "ACCEPT_POST_BAD_SYNTAX"}


def gen(rng):
    if rng.random() < 0.35:
        part = lambda: rng.choice(["*", "text", "X", "a.b+c", "", C.token(rng), "a" * rng.choice([126, 127, 128]), ".a", "-", "A!", "a%b", "a'b"])
        mt = rng.choice(["%s/%s", "%s/%s", "%s/%s", "%s%s", "%s/%s/x", " %s/%s "]) % (part(), part())
        return {"kind": "media", "field": rng.choice(["Accept", "Content-Type", "Accept-Patch", "Accept-Post"]), "media": mt}
    f = rng.choice(list(FIELDS))
    ps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        n = rng.choice(NAMES) if rng.random() < 0.8 else C.token(rng)
        if n.endswith("*") and rng.random() < 0.8:
            v = rng.choice(STARS)
        else:
            v = rng.choice([C.token(rng), C.qstring(rng)[0], "'a'", "''", '""', "x"])
        ps.append([n, v])
    return {"kind": "params", "field": f, "params": ps, "ws": [rng.choice(["", " ", "\t", "  "]) for _ in range(4 * len(ps))],
            "bws": rng.random() < 0.2, "bare": rng.random() < 0.15, "empty": rng.random() < 0.1}


def directed():
    for f in FIELDS:
        for n in ("a", "a*", "charset*", "rel*", "title*", "q*", "*"):
            for v in STARS + ['"a\\"b"', '"a;b=c"', '"a, b"', "x"]:
                yield {"kind": "params", "field": f, "params": [[n, v]]}
        yield {"kind": "params", "field": f, "params": [["a", "1"], ["A", "2"], ["a", '"3"']], "ws": [" "] * 12}
        yield {"kind": "params", "field": f, "params": [["a*", "UTF-8''1"], ["A*", "UTF-8''%ff"], ["a*", "UTF-8''2"]]}
    for f in ("Accept", "Content-Type", "Accept-Patch", "Accept-Post"):
        for a in ("*", "a", "a" * 127, "a" * 128, "-a", "a/b", "", "a%", "A"):
            for b in ("*", "b", "B" * 127, "b" * 128, "b c", ".b", "", "b'"):
                yield {"kind": "media", "field": f, "media": a + "/" + b}


TOKEN = re.compile(r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+\Z")
REG = re.compile(r"[A-Za-z0-9][A-Za-z0-9!#$&^_.+-]*\Z")


def well_formed(t):
    return re.match(r"(?:%[0-9A-Fa-f]{2}|[A-Za-z0-9!#$&+\-.^_`|~])*\Z", t) is not None


def decode(t):
    try:
        return urllib.parse.unquote_to_bytes(t).decode("utf-8")
    except UnicodeDecodeError:
        return None


def check(case):
    f = case["field"]
    if case["kind"] == "media":
        mt = case["media"]
        v = mt.strip() + ";q=1" if f == "Accept" else mt.strip()
        if "," in mt or ";" in mt or '"' in mt:
            return []
        lint = C.lint(C.request([[f, v]]) if f == "Accept" else C.response([[f, v]]))
        bad = None if f == "Content-Type" else f.upper().replace("-", "_") + "_BAD_SYNTAX"
        want = SP.media_type(mt.strip().lower(), lambda p: TOKEN.match(p), lambda p: REG.match(p), bad, f in ("Accept", "Accept-Post")) if v else []
        out = C.diff("notes", f"{f}: {v!r}", sorted(C.names(lint, MEDIA_NOTES)), sorted(want))
        if f == "Content-Type" and v:
            got = lint.headers.parsed.get("content-type")
            out += C.diff("type", f"media type of {v!r}", got and got[0], mt.strip().lower())
        return out
    nostar = FIELDS[f]
    ws = case.get("ws") or [""] * (4 * len(case["params"]))
    s = ""
    for i, (n, v) in enumerate(case["params"]):
        eq = "="
        if case.get("bws") and f in ("Link", "Transfer-Encoding", "TE", "Server-Timing"):
            eq = ws[4 * i] + "=" + ws[4 * i + 1]
        p = n + eq + v
        if case.get("bare") and i % 2 and f == "Link":
            p = n
        s += ws[4 * i + 2] + ";" + ws[4 * i + 3] + p
    if case.get("empty") and f in ("Content-Type",):
        s += " ; "
    s = s.rstrip()
    head = {"Content-Type": "Text/Html", "Content-Disposition": "Inline", "Link": "</x>", "Server-Timing": "m"}.get(f, "gzip")
    lint = C.lint((C.request if f == "TE" else C.response)([[f, head + s]]))
    have, want = {}, []
    for i, (n, v) in enumerate(case["params"]):
        text = n if case.get("bare") and i % 2 and f == "Link" else n + "=" + v
        key, notes, kept, value = SP.step(text, lambda k: k in have, nostar, lambda v: re.sub(r"\\(.)", r"\1", v[1:-1]) if v[:1] == '"' else v,
                                          well_formed, decode)
        want += notes
        if kept:
            have[key] = value
    got = lint.headers.parsed.get(f.lower())
    out = []
    if got is not None:
        if f in ("Content-Type", "Content-Disposition"):
            got = [got]
        got = list(got)
    else:
        got = []
    maps = [dict(g[1]) for g in got if isinstance(g, (tuple, list))]
    out += C.diff("map", f"parameters of {f}: {head + s!r}", maps, [have])
    out += C.diff("names", f"parameter notes of {f}: {head + s!r}", sorted(C.names(lint, SP.STAR)), sorted(want))
    if f in ("Content-Type", "Content-Disposition") and got:
        out += C.diff("type", f"type of {f}: {head + s!r}", got[0][0], head.lower())
    return out


def from_witness(w):
    if w is None:
        return []
    if "param" in w:
        n, _, v = w["param"].partition("=")
        fs = [f for f in FIELDS if FIELDS[f] == w["nostar"]] or list(FIELDS)
        return [{"kind": "params", "field": f, "params": [[n.strip(), v.strip()]], "bare": False} for f in fs]
    if "media_type" in w:
        return [{"kind": "media", "field": f, "media": w["media_type"]} for f in ("Accept", "Content-Type", "Accept-Patch", "Accept-Post")]
    return []
