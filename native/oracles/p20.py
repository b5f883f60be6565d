"""P20: Range, Content-Range, Age, Content-Length."""
import common as C
from spec import ranges as SP

NUMS = ["0", "1", "5", "9", "10", "99", "100", "2147483647", "2147483648", "2147483649", "9223372036854775807",
        "9223372036854775808", "007", "00", "18446744073709551616", "9" * 30, "1" * 5000]
BADNUM = ["", "-", "-1", "+5", "1_0", "a", "0x5", "1.5", "\xb2", "\u00b9", "5 5", "1,2", "*", '"5"', "-0", "--1", "1-"]


def num(rng):
    r = rng.random()
    if r < 0.45:
        return str(rng.randint(0, 12))
    if r < 0.75:
        return rng.choice(NUMS)
    return rng.choice(BADNUM)


def rng_spec(rng):
    r = rng.random()
    if r < 0.6:
        return f"{num(rng)}-{num(rng)}"
    if r < 0.75:
        return f"{num(rng)}-"
    if r < 0.9:
        return f"-{num(rng)}"
    return rng.choice(["-", "", "5", "*", "1-2-3", " 1-2", "1 - 2", "abc"])


def gen(rng):
    f = rng.choice(["Range", "Content-Range", "Age", "Content-Length"])
    st = rng.choice(["200", "206", "206", "416", "404", "304"])
    if f == "Range":
        v = rng.choice(["bytes", "bytes", "items", "", "B"]) + rng.choice(["=", "=", "=", "=", "", "=="]) + rng.choice(
            [",", ", ", " ,"]).join(rng_spec(rng) for _ in range(rng.choice([1, 1, 2, 3, 5])))
    elif f == "Content-Range":
        r = rng.random()
        if r < 0.75:
            v = f"bytes {rng.choice([num(rng) + '-' + num(rng)] * 5 + ['*'])}/{rng.choice([num(rng)] * 5 + ['*'])}"
        else:
            v = rng.choice(["bytes", "items", "", "x"]) + rng.choice([" ", "", "  ", "\t"]) + rng.choice(
                [rng_spec(rng), "*"]) + rng.choice(["/", "", " / "]) + rng.choice([num(rng), "*", ""])
    else:
        v = num(rng)
        if rng.random() < 0.1:
            v = " " + v + rng.choice([" ", "\t"])
    return {"field": f, "value": v, "status": st, "req": rng.random() < 0.3}


def directed():
    for f in ("Age", "Content-Length"):
        for v in NUMS + BADNUM:
            yield {"field": f, "value": v, "status": "200", "req": False}
            yield {"field": f, "value": v, "status": "200", "req": True}
    for st in ("200", "206", "416", "404", "100", "500", "abc"):
        for v in ("bytes 0-4/10", "bytes 0-4/*", "bytes */10", "bytes */*", "bytes", "0-4/10", "bytes 0-4", "bytes 5/10",
                  "bytes 4-0/10", "bytes 0-10/10", "bytes 0-9/10", "bytes 5-2/1", "bytes a-5/10", "bytes 5-a/10",
                  "bytes 5-6/a", "bytes 3-3/4", ""):
            yield {"field": "Content-Range", "value": v, "status": st, "req": False}
    for v in ("bytes=0-0", "bytes=1-0", "bytes=0-", "bytes=-1", "bytes=-", "bytes=", "bytes", "=0-1", "bytes=0-1,3-2,5-4",
              "bytes=5-5", "bytes=0-1, -", "items=0-5", "bytes=10-9", "bytes=9-10"):
        yield {"field": "Range", "value": v, "status": "206", "req": True}


def check(c):
    f, v, st = c["field"], c["value"], c["status"]
    is_req = f == "Range" or c["req"] and f == "Content-Length"
    lint = C.lint(C.request([[f, v]]) if is_req else C.response([[f, v]], status=st))
    got = lint.headers.parsed.get(f.lower(), "absent")
    v = v.strip()
    if f == "Range":
        unit, eq, rest = v.partition("=")
        rs = [SP.one_range(x.strip()) for x in rest.split(",")] if eq and unit else [("bad",)]
        # ranges before the first bad one are still judged
        i = next((k for k, r in enumerate(rs) if r == ("bad",)), len(rs))
        want_notes = ["RANGE_INVALID"] * sum(SP.inverted(r) for r in rs[:i]) + ["RANGE_BAD_SYNTAX"] * (i < len(rs))
        out = C.diff("range-notes", "Range notes", C.names(lint, SP.RANGE_NOTES), want_notes)
        if i < len(rs):
            return out + C.diff("range-value", "Range value", got, None)
        return out + C.diff("range-value", "Range value", (getattr(got, "unit", got), list(getattr(got, "ranges", []))),
                            (unit, rs))
    if f == "Content-Range":
        s = int(st) if st.isdigit() else None
        want, notes = SP.content_range(v, True, s)
        out = C.diff("cr-notes", "Content-Range notes", sorted(C.names(lint, SP.CR_NOTES)), sorted(notes))
        if want is None:
            return out + C.diff("cr-value", "Content-Range value", got, None)
        import dataclasses
        return out + C.diff("cr-value", "Content-Range value", dataclasses.astuple(got) if got not in (None, "absent") else got, want)
    if f == "Age":
        want, notes = SP.age(v)
        ns = {"AGE_NOT_INT", "AGE_NEGATIVE", "AGE_LARGE"}
    else:
        want, notes = SP.content_length(v)
        ns = {"CL_BAD_SYNTAX", "CL_TOO_LARGE"}
    return C.diff(f + "-value", f"{f} value", got, want) + C.diff(f + "-notes", f"{f} notes", C.names(lint, ns), notes)


def from_witness(w):
    w = w or {}
    if w.get("field"):
        yield {"field": w["field"], "value": w.get("value") or "", "status": str(w.get("status") or 200), "req": False}


MIN_STR = True
KEEP = ("field", "status", "req")
