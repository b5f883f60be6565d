"""P15: Set-Cookie (httplint/field/parsers/set_cookie.py)."""
import z3
from pyvc import relang
from pyvc.containers import Maker, PDict, PList, PSet, SList
from pyvc.core import S, SBool, SInt, SStr, ctx as cur, is_sym, new_bool, new_int, new_str, s_and, s_iff, s_not, s_or, tb, z3val, Unsupported
from pyvc.ghost import NS, add_note_fn, conc, notes, optional
from pyvc.models import in_lang
from pyvc.runtime import LoopSpec, same
from pyvc.verify import Contract, raises
from httplint.field.parsers import set_cookie as M
from spec import cookies as SP
from spec import dates

CLS = M.set_cookie
Q = "httplint.field.parsers.set_cookie."
DOMAIN = "SET_COOKIE_PREFIX_HOST_BAD_DOMAIN"
PER_COOKIE = {"SET_COOKIE_" + x for x in (
    "NO_NAME BAD_DATE EMPTY_MAX_AGE LEADING_ZERO_MAX_AGE NON_DIGIT_MAX_AGE EMPTY_DOMAIN NOT_SECURE UNKNOWN_ATTRIBUTE PRIORITY VERSION "
    "UNKNOWN_ATTRIBUTE_VALUE PARTITIONED_NO_SECURE TOO_LARGE VALUE_TOO_LARGE LIFETIME_TOO_LONG PREFIX_SECURE_MISSING "
    "PREFIX_HOST_BAD_DOMAIN PREFIX_HOST_BAD_PATH ATTRIBUTE_DUP").split()}


def parse_date(s):
    """what loose_date_parse does, by its contract (date)"""
    if not cur().decide(z3.Function("is_cookie_date", S, z3.BoolSort())(z3val(s))):
        return None
    return SInt(z3.Function("cookie_date", S, z3.IntSort())(z3val(s)))


def parse_number(s):
    """what parse_digits does (contract in P20)"""
    if not cur().decide(z3.Function("is_digits", S, z3.BoolSort())(z3val(s))):
        return None
    return SInt(z3.Function("digits", S, z3.IntSort())(z3val(s)))


def or_raise(f):
    def g(s, *a, **k):
        r = f(s)
        if r is None:
            raise ValueError("rejected")
        return r

    return g


PREFIX = {n for n in PER_COOKIE if "PREFIX" in n}
ATTRIBUTE = PER_COOKIE - PREFIX - {"SET_COOKIE_" + x for x in (
    "NO_NAME", "NOT_SECURE", "PARTITIONED_NO_SECURE", "TOO_LARGE", "VALUE_TOO_LARGE", "ATTRIBUTE_DUP")}
WITNESS = {"Secure": ("Secure", ""), "Path=/": ("Path", "/")}


class Kept:
    """the notes kept back, in order; those of completed iterations of a cut loop are not in it"""

    def __init__(self):
        self.notes = []

    def append(self, x):
        self.notes.append(x)


def cookie(ctx):
    s, base = new_str("cookie"), new_str("base_uri")
    now = NS()
    deferred = Kept()
    h = CLS.__new__(CLS)
    h.__dict__.update(message=NS(message_type="response", base_uri=base, start_time=now, notes=[]), _deferred_notes=deferred)
    st = {}
    path = new_str("path")

    def urlsplit(u, *a, **k):  # trusted: urllib.parse.urlsplit; raises ValueError for what is not a URI
        ctx.prove(u == base, "the default path comes from the base URI")
        st["valid"] = ctx.decide(z3.Bool("base_uri_valid"))
        if not st["valid"]:
            raise ValueError("Invalid URI")
        return NS(path=path)

    def uri_path():
        return path if st["valid"] else ""

    def wit(m):
        w = {"line": conc(m, s), "base": "http://example.com" + str(conc(m, path)) if conc(m, path) else ""}
        if "text" in st:
            w = {"attribute": conc(m, st["text"]), "base": w["base"]}
        return w

    ctx.witness = wit
    ctx.stubs["urllib.parse.urlsplit"] = urlsplit

    def process(name, value, cookie_name, attrs, given_path, at, add_note, late):  # by its contract (attribute)
        st.setdefault("processed", []).append((name, value, cookie_name, attrs, given_path, at, late))
        st["late after"] = new_bool("late_after")
        return st["late after"]

    ctx.stubs[Q + "_process_cookie_attribute"] = process

    def names():
        return [n[1].__name__ for n in deferred.notes]

    def state(v):
        attrs = [x for x in v.values() if isinstance(x, PList)]
        seen = [x for x in v.values() if isinstance(x, (PSet, PDict))]
        late = [x for n, x in v.items() if type(x) in (bool, SBool)]
        if len(attrs) != 1 or len(seen) != 1 or len(late) != 1:
            raise Unsupported("the state of the loop over attributes was not recognised")
        return attrs[0], seen[0], late[0]

    def begin(v):
        st["rest"] = v["unparsed_attributes"]
        st["text"], _, st["then"] = st["rest"].partition(";")
        attrs, seen, late = state(v)
        st["attrs"] = attrs.sym
        st["seen"] = PSet(seen) if isinstance(seen, PSet) else seen.copy()
        st["late"] = late
        st["n"] = len(names())
        st.pop("processed", None)

    def end(v):
        attrs, seen, late = state(v)
        ctx.prove(v["unparsed_attributes"] == st["then"], "one attribute is read, up to the next semicolon")
        name, value = SP.divide(st["text"])
        key = name.lower()
        dup = bool(st["seen"].scontains(key))
        ctx.cover("repeated" if dup else "new")
        got = names()[st["n"]:]
        ctx.prove(got == (["SET_COOKIE_ATTRIBUTE_DUP"] if dup else []), "repeated attributes are noted",
                  info=lambda: f"{got}")
        pr = st.get("processed", [])
        ctx.prove(len(pr) == 1, "each attribute is judged once")
        ctx.prove(pr[0][0] == name and pr[0][1] == value and pr[0][3] is attrs, "by its name and value, to be kept in the cookie's list")
        ctx.prove(pr[0][4] == uri_path() and pr[0][5] is now, "with the default path and the time")
        ctx.prove(s_iff(pr[0][6], st["late"]), "and whether the lifetime was too long already")
        ctx.prove(s_iff(late, st["late after"]), "once a lifetime is too long that is remembered")
        ctx.prove(attrs.sym is st["attrs"] and not list.__len__(attrs), "nothing else is kept")
        x = new_str("any_name")
        ctx.prove(s_iff(seen.scontains(x), s_or(st["seen"].scontains(x), x == key)), "exactly the attribute's name joins those seen")

    def inv(v):
        if v.k is None or is_sym(v.k):
            st["list"] = state(v)[0]
            return []
        if v.k != 0:
            return []
        attrs, seen, late = state(v)
        st["before"] = names()
        return [("every attribute is read", v["unparsed_attributes"] == s.partition(";")[2]),
                ("no attribute is kept yet", attrs.sym is None and not list.__len__(attrs)),
                ("no name is seen yet", not seen.is_symbolic() and len(seen) == 0),
                ("no lifetime is too long yet", late == False)]  # noqa: E712

    def frame(v):
        attrs = state(v)[0]

        def forget():  # any attributes; that some have numbers for values is left out: they equal no text either way
            list.clear(attrs)
            attrs.sym = SList("kept", maker=Maker("kept", {("tuple", "str", "str")}))

        return [(attrs, None, forget)]

    def check_prefixes(name, attrs, add_note):  # by its contract (prefixes)
        st["prefixes"] = (name, attrs)

    ctx.stubs[Q + "check_prefixes"] = check_prefixes
    ctx.loop_specs = {"while*": lambda lid, loc: LoopSpec(inv, begin=begin, end=end, frame=frame)}
    status, got = raises(ctx, h.parse, s, add_note_fn())
    first = s.partition(";")[0]
    name, value = SP.split(first)
    ctx.prove(not notes(), "no note is added directly")
    if name == "" and value == "":
        ctx.cover("no cookie")
        ctx.prove(status != "ok" and isinstance(got, ValueError), "a line with neither name nor value gives no cookie")
        ctx.prove(names() == ["SET_COOKIE_NO_NAME"], "and a note")
        return
    ctx.prove(status == "ok", "any other line gives a cookie", info=lambda: repr(got))
    if status != "ok":
        return
    ctx.cover("cookie")
    ctx.prove(got[0] == name and got[1] == value and got[2] is st["list"], "the cookie has its name, its value and the attributes kept")
    want = SP.before(name, value)
    for w in want:
        ctx.cover(w)
    ctx.prove(sorted(st["before"]) == sorted(want), "the sizes are judged", info=lambda: f"{st['before']}, expected {want}")
    attrs = st["list"]
    has = lambda n, v: bool(attrs.scontains((n, v)))
    want = SP.together(has)
    if "prefixes" in st:
        n, l = st["prefixes"]
        ctx.prove(n == name and l is attrs, "the prefixes are judged for this cookie")
    else:
        want += SP.prefixes(name, has, bool(attrs.sym.exists(lambda a: a[0] == "Domain")))
    for w in want:
        ctx.cover(w)
    got = names()[len(st["before"]):]
    ctx.prove(sorted(got) == sorted(want), "the attributes are judged together", info=lambda: f"{got}, expected {want}")


def attribute(ctx):
    name, value, path, cookie_name = new_str("name"), new_str("value"), new_str("path"), new_str("cookie_name")
    now = optional("start_time", new_int("start_time"))
    late = new_bool("late")
    ctx.assume(z3.And(z3val(name.strip()) == z3val(name), z3val(value.strip()) == z3val(value)))
    attrs = PList([("Before", "")])
    ctx.witness = lambda m: {"attribute": f"{conc(m, name)}={conc(m, value)}", "base": "http://example.com" + str(conc(m, path)) if conc(m, path) else "",
                             "now": conc(m, now)}
    ctx.stubs[Q + "loose_date_parse"] = or_raise(parse_date)
    ctx.stubs["httplint.field.utils.parse_digits"] = or_raise(parse_number)
    ctx.stubs["httplint.util.relative_time"] = lambda *a, **k: "a time"
    status, got = raises(ctx, M._process_cookie_attribute, name, value, cookie_name, attrs, path, now, add_note_fn(), late)
    ctx.prove(status == "ok", "judging an attribute never raises", info=lambda: repr(got))
    if status != "ok":
        return
    key, want, kept, long = SP.attribute(name, value, path, now, parse_date, parse_number)
    long, was_late = bool(long), bool(late)
    if long and not was_late:
        want = want + ["SET_COOKIE_LIFETIME_TOO_LONG"]
    for w in want or ["unnoted"]:
        ctx.cover(w)
    tr = [r.name for r in notes()]
    ctx.prove(sorted(tr) == sorted(want), "an attribute gives exactly the notes that apply", info=lambda: f"{tr}, expected {want}")
    items = list(list.__iter__(attrs))
    more = items[1:]
    ctx.prove(items[:1] == [("Before", "")] and len(more) == (1 if kept else 0),
              "exactly the attributes that are accepted are kept, in order", info=lambda: f"{more}, expected {kept}")
    if kept and len(more) == 1:
        ctx.cover("kept")
        ctx.prove(len(more[0]) == 2 and more[0][0] == kept[0] and same(more[0][1], kept[1]), "with the value the rules give",
                  info=lambda: f"{more}, expected {kept}")
    ctx.prove(same(got, was_late or long), "whether a lifetime was too long is the result", info=lambda: f"{got}")


def prefixes(ctx):
    name = new_str("name")
    attrs = PList()
    attrs.sym = SList("kept", maker=Maker("kept", {("tuple", "str", "str")}))
    st = {}
    has = lambda n, v: bool(attrs.scontains((n, v)))
    ctx.witness = lambda m: {"line": "; ".join([f"{conc(m, name)}=1"] + [x for x, (n, v) in WITNESS.items() if conc(m, attrs.scontains((n, v)))]
                                               + (["Domain=x"] if conc(m, attrs.sym.exists(lambda a: a[0] == "Domain")) else []))}

    def inv(v):
        if v.k is not None and not is_sym(v.k) and v.k == 0:
            st["before"] = [r.name for r in notes()]
            return [("the attributes kept are gone through", v.seq is attrs.sym)]
        return []

    def begin(v):
        st["n"], st["elem"] = len(notes()), v.elem

    def end(v):
        is_domain = bool(st["elem"][0] == "Domain")
        got = [r.name for r in notes()[st["n"]:]]
        ctx.prove(got == ([DOMAIN] if is_domain else []), "each Domain attribute is noted", info=lambda: f"{got}")

    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(inv, begin=begin, end=end)}
    status, got = raises(ctx, M.check_prefixes, name, attrs, add_note_fn())
    ctx.prove(status == "ok", "judging the prefixes never raises", info=lambda: repr(got))
    went = "before" in st
    got = st["before"] if went else [r.name for r in notes()]
    host = bool(name.lower().startswith("__host-"))
    if went:
        ctx.cover(DOMAIN)
        ctx.prove(host, "Domain is noted for __Host- cookies only")
    want = SP.prefixes(name, has, not went and bool(attrs.sym.exists(lambda a: a[0] == "Domain")))
    for w in want or ["none"]:
        ctx.cover(w)
    ctx.prove(sorted(got) == sorted(want), "the prefixes' rules are judged", info=lambda: f"{got}, expected {want}")


# ------------------------------------------------------------------------------------------
class Num:
    def __init__(self, n):
        self.n = n

    def sym_int(self):
        return self.n


class Clock:
    def __init__(self, ns):
        self.ns = ns

    def split(self, sep=None, n=-1):
        if sep != ":" or n not in (-1, 2):
            raise Unsupported("split of a time")
        return PList([Num(n) for n in self.ns])


class Found:
    def __init__(self, kind, ns):
        self.kind, self.ns = kind, ns

    def group(self, *i):
        if i != (1,):
            raise Unsupported("group of a match")
        return Clock(self.ns) if self.kind == "time" else Num(self.ns[0])

    def groups(self):
        return (self.group(1),)


END = r"(?:[^0-9][\s\S]*)?\Z"
KINDS = {"time": SP.TIME, "day": SP.DAY, "year": SP.YEAR}
LANGS = {k: relang.wire(relang.lang(p + END)) for k, p in KINDS.items()}
LIMITS = {"time": 99, "day": 99, "year": 9999}


def numbers(kind):
    def f(token):
        if not cur().decide(in_lang(token, LANGS[kind])):
            return None
        ns = tuple(SInt(z3.Function(f"{kind}_{i}", S, z3.IntSort())(z3val(token))) for i in range(3 if kind == "time" else 1))
        for n in ns:
            cur().assume(tb(s_and(n >= 0, n <= LIMITS[kind])))
        return ns

    return f


def match(pattern, token, flags=0):
    """which of the three kinds of token a pattern is for is decided by comparing languages"""
    d = relang.wire(relang.lang(pattern, flags, "match"))
    for kind, want in LANGS.items():
        if relang.compare(d, want, True) is None:
            must, g = relang.groups(pattern, flags).get(1, (False, None))
            if not must or g is None or relang.compare(g, relang.lang(KINDS[kind] + r"\Z"), True) is not None:
                raise Unsupported("the numbers are not the group")
            ns = numbers(kind)(token)
            return None if ns is None else Found(kind, ns)
    cur().prove(False, "a token is matched as one of the three forms RFC 6265 gives", info=lambda: repr(pattern))
    raise Unsupported("another pattern")


def days_ok(y, mo=None, d=None, h=0, mi=0, sec=0, *a, **k):
    if a or k:
        raise Unsupported("datetime arguments")
    if not (y >= 1 and y <= 9999 and mo >= 1 and mo <= 12 and d >= 1 and d <= dates.days_in(y, mo)
            and h >= 0 and h <= 23 and mi >= 0 and mi <= 59 and sec >= 0 and sec <= 59):
        raise ValueError("out of range")
    return NS()


NAMES = {"time": ("found_time", ("hour_value", "minute_value", "second_value")), "day": ("found_day_of_month", ("day_of_month_value",)),
         "month": ("found_month", ("month_value",)), "year": ("found_year", ("year_value",))}


def date(ctx):
    ctx.wire = True
    s = new_str("date")
    st = {}
    ctx.witness = lambda m: {"attribute": "Expires=" + (f"{conc(m, st['token'])} 06 Nov 1994 08:49:37" if "token" in st else str(conc(m, s)))}

    def split(pattern, text, *a, **k):
        ctx.prove(relang.compare(relang.lang(pattern, 0, "fullmatch"), relang.lang(SP.DELIMITER, 0, "fullmatch"), True) is None and not a and not k,
                  "tokens are what the delimiters divide")
        ctx.prove(text == s, "the whole date is read")
        l = PList()
        l.sym = SList("tokens", maker=Maker("tokens", {"str"}), minlen=1)
        st["tokens"] = l
        return l

    ctx.stubs.update({"re.match": match, "re.split": split, "datetime.datetime": days_ok, "datetime.date": days_ok})

    def flags(v):
        return {k: v[f] for k, (f, _) in NAMES.items()}

    def value(v, k):
        return [dict.get(v, n) for n in NAMES[k][1]]

    def begin(v):
        st["token"] = v.elem
        st["found"], st["values"] = flags(v), {k: value(v, k) for k in NAMES}

    def end(v):
        was = {k for k in NAMES if bool(st["found"][k])}
        kind, ns = SP.date_token(st["token"], was, numbers("time"), numbers("day"), numbers("year"))
        ctx.cover(str(kind))
        f = flags(v)
        for k in NAMES:
            ctx.prove(s_iff(f[k], k in was or k == kind), f"a token is read as {k} exactly when it should")
            if k == kind:
                ctx.prove(same(tuple(value(v, k)), tuple(ns)), f"the {k} has the token's numbers")
            elif k in was:
                ctx.prove(same(tuple(value(v, k)), tuple(st["values"][k])), f"the {k} found before stays")

    def inv(v):
        if v.k is None or is_sym(v.k):
            st["final"] = (flags(v), {k: value(v, k) for k in NAMES})
            out = []
            for k, lo, hi in (("month", 1, 12), ("year", 0, 9999)):
                x = value(v, k)[0]
                if isinstance(x, (int, SInt)):
                    out.append((f"the {k} is from {lo} to {hi}", s_or(s_not(v[NAMES[k][0]]), s_and(x >= lo, x <= hi))))
            return out
        if v.k != 0:
            return []
        return [("every token is read", "tokens" in st and v.seq is st["tokens"].sym)] + [
            (f"no {k} is found yet", s_iff(x, False)) for k, x in flags(v).items()]

    numeric = {n for _, ns in NAMES.values() for n in ns}  # bound once found: used after that only (shown below)
    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(inv, begin=begin, end=end, havoc=lambda v, n: new_int(n) if n in numeric else None)}
    status, got = raises(ctx, M.loose_date_parse, s)
    f, vals = st["final"]
    found = {k for k in NAMES if bool(f[k])}
    want = None
    if len(found) == 4:
        ctx.cover("complete")
        want = SP.date_value(found, vals["year"][0], vals["month"][0], vals["day"][0], *vals["time"], dates.days_in,
                             lambda *a: SInt(z3.Function("timegm", *([z3.IntSort()] * 7))(*[z3val(x) for x in a])))
    ctx.cover("date" if want is not None else "no date")
    if want is None:
        ctx.prove(status != "ok" and isinstance(got, ValueError), "what is no date is rejected", info=lambda: f"{status} {got!r}")
    else:
        ctx.prove(status == "ok" and same(got, want), "a date is its seconds since 1970", info=lambda: f"{status} {got!r}")


# ------------------------------------------------------------------------------------------
def evaluate(ctx):
    """bounded: up to three cookies and two notes kept back"""
    n = ctx.choose(4, "cookies")
    k = 2 * ctx.choose(2, "kept back") if n == 0 else 1
    given = []
    recs = [(M.SET_COOKIE_PRIORITY, {"cookie_name": "a"}), (M.SET_COOKIE_VERSION, {"cookie_name": "b"})][:k]
    h = CLS.__new__(CLS)
    cs, hard = [], []
    names_ = [new_str(f"name_{i}") for i in range(n)]
    for i in range(n):
        attrs = PList()
        secure, http = (i < 2 and bool(new_bool(f"{x}_{i}")) for x in ("secure", "httponly"))
        if secure:
            attrs.append(("Secure", ""))
        if http:
            attrs.append(("HttpOnly", ""))
        site = ["Lax", "Strict", "None", None][ctx.choose(4, f"site_{i}")] if secure and http else None
        if site:
            attrs.append(("SameSite", site))
        if secure and http and site in ("Lax", "Strict"):
            hard.append(i)
        cs.append((names_[i], "v", attrs))
    ctx.witness = lambda m: {"lines": ["; ".join([f"{conc(m, c[0])}=1"] + [f"{a}={b}" if b else a for a, b in list.__iter__(c[2])]) for c in cs]}
    h.__dict__.update(value=PList(cs), message=NS(message_type="response", notes=[]),
                      _deferred_notes=PList([(lambda note, category=None, **kw: given.append((note, kw)), note, None, kw) for note, kw in recs]))
    ctx.stubs["httplint.note.MarkdownSafe"] = lambda x: x
    status, got = raises(ctx, h.evaluate, add_note_fn())
    ctx.prove(status == "ok", "evaluation never raises", info=lambda: repr(got))
    dup = any(bool(names_[i] == names_[j]) for i in range(n) for j in range(i))
    want = (["SET_COOKIE_NAME_DUP"] if dup else []) + (["SET_COOKIE_HARDENED"] if hard else [])
    for w in want or ["none"]:
        ctx.cover(w)
    tr = [r.name for r in notes()]
    ctx.prove(sorted(tr) == sorted(want), "repeated names and hardened cookies are noted", info=lambda: f"{tr}, expected {want}")
    ctx.prove(len(given) == len(recs) and all(a is b and dict(x) == y for (a, x), (b, y) in zip(given, recs)),
              "the notes kept back are given, each once")


def contracts():
    return [
        Contract("cookie", cookie, functions=[Q + "set_cookie.parse", Q + "loose_parse"],
                 covers=["SET_COOKIE_TOO_LARGE", "SET_COOKIE_VALUE_TOO_LARGE", "SET_COOKIE_NOT_SECURE", "SET_COOKIE_PARTITIONED_NO_SECURE",
                         "no cookie", "cookie", "repeated", "new"]),
        Contract("attribute", attribute, functions=[Q + "_process_cookie_attribute"], covers=sorted(ATTRIBUTE) + ["kept", "unnoted"]),
        Contract("prefixes", prefixes, functions=[Q + "check_prefixes"], covers=sorted(PREFIX) + ["none"]),
        Contract("date", date, functions=[Q + "loose_date_parse"], covers=["time", "day", "month", "year", "None", "date", "no date", "complete"]),
        Contract("evaluate (up to three)", evaluate, functions=[Q + "set_cookie.evaluate", Q + "_is_hardened"],
                 covers=["none", "SET_COOKIE_NAME_DUP", "SET_COOKIE_HARDENED"]),
    ]
