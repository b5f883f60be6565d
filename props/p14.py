"""P14: HTTP dates.  parse_http_date is proved for every text, the clock notes for every value."""
import z3
from pyvc.verify import Contract, raises
from pyvc.ghost import NS, notes, add_note_fn, conc, optional, GhostNotes
from pyvc.core import new_int, new_str, new_real, new_bool, SStr, SInt, S, is_sym, ctx as cur, z3val, mkbool, Unsupported, mknum
from pyvc.models import in_lang, m_timegm
from pyvc import relang
from pyvc.containers import LazyDict
from httplint.field import utils as U
from httplint.field.parsers.date import date
from httplint.field.parsers.expires import expires
from httplint.field.parsers.sunset import sunset
from httplint.field.parsers.last_modified import last_modified
from spec import dates as SP

Q = "httplint.field.parsers."
FORMATS = {n: relang.lang(p) for n, p in (("imf", SP.IMF), ("rfc850", SP.RFC850), ("asctime", SP.ASCTIME))}
ANY_FORMAT = relang.lang("^(" + "|".join(p[1:-1] for p in (SP.IMF, SP.RFC850, SP.ASCTIME)) + ")$")


def is_in(s, name):
    return cur().decide(in_lang(s, FORMATS[name]))


class Parts:
    """The numbers a text in one of the formats is made of (uninterpreted functions of the text)."""

    def __init__(self, s):
        self.s = s
        self.year, self.mon, self.day, self.h, self.mi, self.sec = [
            SInt(z3.Function("date_" + n, S, z3.IntSort())(s.e)) for n in ("year", "mon", "day", "h", "mi", "sec")]
        c = cur()
        for v, lo, hi in ((self.mon, 1, 12), (self.day, 0, 99), (self.h, 0, 99), (self.mi, 0, 99), (self.sec, 0, 99),
                          (self.year, 0, 9999)):
            c.assume(z3.And(v.e >= lo, v.e <= hi))
        c.assume(in_lang(s, ANY_FORMAT) == z3.Or(*[in_lang(s, d) for d in FORMATS.values()]))
        c.assume(z3.Implies(in_lang(s, FORMATS["rfc850"]), self.year.e <= 99))

    def format(self):
        for n in FORMATS:
            if is_in(self.s, n):
                return n
        return None


class Year:
    def __init__(self, parts):
        self.parts = parts

    def group(self, *a):
        if a not in ((), (0,)):
            raise Unsupported("group of the year")
        return NumText(self.parts.year)


class NumText:
    def __init__(self, n):
        self.n = n

    def sym_int(self):
        return self.n


def stubs(parts):
    def parsedate(text):
        if text is not parts.s:
            raise Unsupported("parsedate of another text")
        f = parts.format()
        if f is None:
            raise Unsupported("parsedate of a text that is in none of the formats")
        y = parts.year
        # the library takes every year below 100 to be a two-digit one
        if y < 100:
            y = SP.year_of(y, True)
        return (y, parts.mon, parts.day, parts.h, parts.mi, parts.sec, 0, 1, -1)

    def search(pattern, text, flags=0):
        if text is not parts.s or is_sym(pattern) or pattern not in ("[0-9]{4}", r"\d{4}"):
            raise Unsupported("re.search")
        f = parts.format()
        if f is None:
            raise Unsupported("re.search in a text that is in none of the formats")
        return None if f == "rfc850" else Year(parts)

    def check(y, mo=None, d=None, h=0, mi=0, sec=0, *a, **k):
        if a or k:
            raise Unsupported("datetime arguments")
        ok = y >= 1 and y <= 9999 and mo >= 1 and mo <= 12 and d >= 1 and d <= SP.days_in(y, mo) and \
            h >= 0 and h <= 23 and mi >= 0 and mi <= 59 and sec >= 0 and sec <= 59
        if not ok:
            raise ValueError("out of range")
        return NS()

    return {"email._parseaddr.parsedate": parsedate, "re.search": search, "datetime.datetime": check,
            "datetime.date": check}


def parse_date(ctx):
    s = new_str("value")
    ctx.assume(z3.Not(in_lang(s, relang.lang(r"^[\s\S]*\n$", 0, "match"))))  # field values are stripped
    parts = Parts(s)

    def witness(m):
        f = next((n for n in FORMATS if z3.is_true(m.eval(in_lang(s, FORMATS[n]), model_completion=True))), None)
        return {"format": f, "parts": [conc(m, getattr(parts, n)) for n in ("year", "mon", "day", "h", "mi", "sec")]}

    ctx.witness = witness
    ctx.stubs.update(stubs(parts))
    st, got = raises(ctx, U.parse_http_date, s, add_note_fn())
    f = parts.format()
    y = SP.year_of(parts.year, f == "rfc850") if f else None
    good = f is not None and SP.real(y, parts.mon, parts.day, parts.h, parts.mi, parts.sec)
    tr = [r.name for r in notes()]
    if st == "raise" and not isinstance(got, ValueError):
        ctx.prove(False, f"parse_http_date raises only ValueError, not {type(got).__name__}", info=str(got))
        return
    ctx.cover(f"{f} {'good' if good else 'bad'}")
    if not good:
        ctx.prove(st == "raise", "anything but a real date in one of the formats is rejected")
        ctx.prove(tr == ["BAD_DATE_SYNTAX"], "a rejected date gets exactly one bad-syntax note", info=lambda: str(tr))
        return
    ctx.prove(st == "ok", "a real date in one of the formats is accepted")
    ctx.prove(tr == ([] if f == "imf" else ["DATE_OBSOLETE"]), "exactly the obsolete formats are noted", info=lambda: str(tr))
    if st == "ok":
        ctx.prove(got == m_timegm((y, parts.mon, parts.day, parts.h, parts.mi, parts.sec)),
                  "the value is the instant the text denotes")


def uses_it(cls):
    """parse() of a date field is parse_http_date of the text it is given"""
    def body(ctx):
        s = new_str("value")
        ok = new_bool("valid")
        n = new_int("instant")

        def stub(value, add_note, category=None):
            calls.append(value)
            if ok:
                return n
            raise ValueError

        calls = []
        ctx.stubs["httplint.field.utils.parse_http_date"] = stub
        h = cls.__new__(cls)
        h.__dict__.update(message=NS(message_type="response"))
        st, got = raises(ctx, h.parse, s, add_note_fn())
        ctx.prove(len(calls) == 1 and calls[0] is s, "the text is parsed as an HTTP date, once")
        ctx.prove(not notes(), "no further note")
        if ok:
            ctx.prove(st == "ok" and got is n, "the value is the date's")
        else:
            ctx.prove(st == "raise" and isinstance(got, ValueError), "a bad date gives no value")

    return body


def skew(ctx):
    value = new_int("date")
    is_resp = bool(new_bool("is_response"))
    start = optional("start_time", new_real("start_time"))
    ages = optional("age", new_int("age", 0))
    has_age = new_bool("has_age")
    parsed = LazyDict("parsed", lambda k: ages)
    h = date.__new__(date)
    h.__dict__.update(value=value, message=NS(
        message_type="response" if is_resp else "request", start_time=start, notes=GhostNotes("message"),
        headers=NS(parsed=parsed)))
    ctx.assume(value >= -62135596800)
    ctx.witness = lambda m: {"field": "Date", "date": conc(m, value), "start": conc(m, start), "age": conc(m, ages)
                             if conc(m, parsed.has("age")) else None}
    ctx.stubs["httplint.util.relative_time"] = lambda *a, **k: "relative"
    # while the fields are being parsed, only some of the others are there yet
    h.message.headers = NS(parsed=LazyDict("sofar", lambda k: new_int("sofar", 0)))
    st, got = raises(ctx, h.evaluate, add_note_fn("field"))
    ctx.prove(st == "ok", "evaluate does not raise")
    h.message.headers = NS(parsed=parsed)
    st, got = raises(ctx, h.post_check, add_note_fn("field"))
    ctx.prove(st == "ok", "the check does not raise")
    tr = [(r.name, r.subject if r.owner == "message" else "field") for r in notes()]
    if not is_resp or core_none(start):
        ctx.cover("not judged")
        ctx.prove(tr == [], "no clock note without a response time")
        return
    age = ages.val if bool(parsed.has("age")) and not core_none(ages) else 0
    want = SP.skew_note(value, int_(start.val), age)
    ctx.cover(want)
    ctx.prove(tr == [(want, "field-date field-age" if want == "AGE_PENALTY" else "field")],
              "exactly the clock note the rules give", info=lambda: f"{tr}, expected {want}")


def int_(x):
    from pyvc.models import m_int
    return m_int(x)


def core_none(o):
    return cur().decide(o.none)


def contracts():
    return [
        Contract("parse_http_date", parse_date, functions=["httplint.field.utils.parse_http_date"],
                 covers=[f"{f} {g}" for f in FORMATS for g in ("good", "bad")] + ["None bad"]),
        Contract("skew", skew, functions=[Q + "date.date.post_check"],
                 covers=["not judged", "AGE_PENALTY", "DATE_INCORRECT", "DATE_CORRECT"]),
    ] + [Contract(c.__name__, uses_it(c), functions=[f"{Q}{c.__name__}.{c.__name__}.parse"])
         for c in (date, expires, sunset, last_modified)]
