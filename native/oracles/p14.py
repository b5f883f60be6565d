"""P14: HTTP dates."""
import common as C
from spec import dates as SP

FIELDS = ["Date", "Expires", "Last-Modified", "Sunset"]
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
LONG = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
NAMES = {"BAD_DATE_SYNTAX", "DATE_OBSOLETE"}
CLOCK = {"AGE_PENALTY", "DATE_INCORRECT", "DATE_CORRECT"}


def text(fmt, y, mo, d, h, mi, s, wd=6):
    mon = SP.MONTHS[(mo - 1) % 12]
    tm = f"{h:02d}:{mi:02d}:{s:02d}"
    if fmt == "imf":
        return f"{DAYS[wd]}, {d:02d} {mon} {y:04d} {tm} GMT"
    if fmt == "rfc850":
        return f"{LONG[wd]}, {d:02d}-{mon}-{y % 100:02d} {tm} GMT"
    return f"{DAYS[wd]} {mon} {d:2d} {tm} {y:04d}"


def rand_parts(rng):
    y = rng.choice([rng.randint(1970, 2100), rng.randint(1, 9999), rng.choice([0, 1, 68, 69, 70, 99, 100, 1899, 1900,
                    1968, 1969, 1970, 2000, 2001, 2024, 2100, 9999])])
    d = rng.choice([rng.randint(1, 28), rng.randint(0, 31), rng.randint(28, 32), 99])
    h, mi, s = [rng.choice([rng.randint(0, 23), rng.randint(0, lim), lim]) for lim in (25, 61, 62)]
    if rng.random() < 0.7:
        h, mi, s = h % 24, mi % 60, s % 60
    return y, rng.randint(1, 12), d, h, mi, s, rng.randint(0, 6)


def mangle(rng, t):
    r = rng.random()
    if r < 0.2:
        return rng.choice([t.lower(), t.upper(), t.swapcase()])
    if r < 0.4:
        return t.replace("GMT", rng.choice(["UTC", "gmt", "+0000", "", "EST", "GMT+1", "Z"]))
    i = rng.randrange(len(t))
    if r < 0.6:
        return t[:i] + t[i + 1:]
    if r < 0.8:
        return t[:i] + rng.choice(" 09-:,Gx\u00b2") + t[i:]
    return t[:i] + rng.choice(" 09-:,Gxa\u00e9") + t[i + 1:]


def gen(rng):
    if rng.random() < 0.3:
        start = rng.choice([C.T0, 0.0, 86400.25, C.T0 + 0.9])
        age = rng.choice([None, None, "0", "1", "5", "6", "7", "10", "100", "-5", "x", str(rng.randint(0, 20))])
        off = rng.choice([rng.randint(-20, 20), -5, 5, 6, -6, 0, rng.randint(-10**6, 10**6)])
        if age and age.isdigit() and rng.random() < 0.6:
            off -= int(age)
        return {"skew": True, "off": max(off, -int(start)), "start": start, "age": age,
                "req": rng.random() < 0.1, "fmt": rng.choice(["imf", "imf", "imf", "rfc850", "asctime"])}
    t = text(rng.choice(["imf", "imf", "rfc850", "asctime"]), *rand_parts(rng))
    if rng.random() < 0.35:
        t = mangle(rng, t)
    return {"field": rng.choice(FIELDS), "value": t}


def directed():
    vals = ["", "0", "-1", "Thu, 01 Jan 1970 00:00:00 GMT", "Sun, 06 Nov 1994 08:49:37 GMT",
            "sun, 06 nov 1994 08:49:37 gmt", "Sun, 6 Nov 1994 08:49:37 GMT", "Sun Nov 06 08:49:37 1994",
            "Wed, 31 Feb 1999 08:49:37 GMT", "Sun, 06 Nov 1994 08:49:60 GMT", "Sun, 06 Nov 1994 24:00:00 GMT",
            "Sun, 06 Nov 0094 08:49:37 GMT", "Sun, 06 Nov 0000 08:49:37 GMT", "1994-11-06T08:49:37Z"]
    for f in FIELDS:
        for v in vals:
            yield {"field": f, "value": v}
    for y in range(0, 100):
        yield {"field": "Expires", "value": text("rfc850", y, 1 + y % 12, 1 + y % 28, 1, 2, 3)}
        yield {"field": "Expires", "value": text("imf", y, 3, 9, 1, 2, 3)}
    for y in (1600, 1900, 1999, 2000, 2004, 2100):
        for mo in range(1, 13):
            for d in (0, 1, 9, 28, 29, 30, 31, 32):
                for f in ("imf", "asctime"):
                    yield {"field": "Date", "value": text(f, y, mo, d, 23, 59, 59, (y + mo + d) % 7)}
    for h, mi, s in ((0, 0, 0), (23, 59, 59), (24, 0, 0), (0, 60, 0), (0, 0, 60), (0, 0, 61), (99, 99, 99)):
        for f in ("imf", "asctime", "rfc850"):
            yield {"field": "Date", "value": text(f, 1994, 11, 6, h, mi, s)}
    for off in (-7, -6, -5, -4, 0, 4, 5, 6, 7):
        for age in (None, "0", "4", "5", "6", "10", "100"):
            for fmt in ("imf", "asctime"):
                yield {"skew": True, "off": off, "start": C.T0, "age": age, "req": False, "fmt": fmt}
                if age:
                    yield {"skew": True, "off": off - int(age), "start": C.T0 + 0.5, "age": age, "req": False, "fmt": fmt}
    yield {"skew": True, "off": 0, "start": 0.0, "age": None, "req": False, "fmt": "imf"}


def civil(n):
    import datetime
    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n)
    return (t.year, t.month, t.day, t.hour, t.minute, t.second, t.weekday())


def check(c):
    if not c.get("skew"):
        f, v = c["field"], c["value"]
        lint = C.lint(C.response([[f, v]]))
        v = v.strip(" \t")
        want, notes = SP.parse(v)
        return C.diff(f + "-value", f"{f} value", lint.headers.parsed.get(f.lower(), "absent"), want) + C.diff(
            f + "-notes", f"{f} notes", C.names(lint, NAMES), notes)
    start = c["start"]
    fields = [["Date", text(c["fmt"], *civil(int(start) + c["off"]))]]
    if c["age"] is not None:
        fields.append(["Age", c["age"]])
    if c["req"]:
        lint = C.lint(C.request(fields, start_time=start))
        return C.diff("clock-notes", "clock notes", C.names(lint, CLOCK), [])
    lint = C.lint(C.response(fields, start_time=start))
    value, _ = SP.parse(fields[0][1])
    age = int(c["age"]) if c["age"] and c["age"].isdigit() else 0
    got = [n for n in lint.notes if type(n).__name__ in CLOCK]
    want = [SP.skew_note(value, int(start), age)]
    return C.diff("clock-notes", "clock notes", [type(n).__name__ for n in got], want)


def from_witness(w):
    w = w or {}
    if "parts" in w:
        y, mo, d, h, mi, s = w["parts"]
        if w.get("format"):
            yield {"field": "Expires", "value": text(w["format"], y, mo, d, h, mi, s)}
    elif w.get("field") == "Date" and w.get("start") is not None:
        n, st = int(w["date"]), float(w["start"])
        for fmt in ("imf",):
            if n > -62135596800 and n < 253402300799 and abs(st) < 1e11:
                yield {"skew": True, "off": n - int(st), "start": st, "age": None if w.get("age") is None else str(w["age"]),
                       "req": False, "fmt": fmt}


MIN_STR = True
KEEP = ("field", "fmt", "start", "req", "skew")
