"""P01: linting never raises.

Three layers, each a function against the contracts of what it calls:
* every method of every field class (parse, evaluate, post_check): for an arbitrary message, an arbitrary value, and arbitrary
  values of the other fields, nothing but ValueError leaves parse and nothing leaves the others;
* what calls them (handle_input and finish of the field kinds, the section, the message, the decoders, the checkers) and what
  they call (parsers of dates, cookies, parameters, ranges, ...): the contracts of the other properties, re-run here with the
  clauses about raising alone.
"""
import dataclasses
import datetime
import re
import typing
from decimal import Decimal

import z3
from http_sf import DisplayString, Token

from pyvc import core, models, relang
from pyvc.containers import LazyDict, Maker, PDict, PList, PSet, SList, hashable, shape_of
from pyvc.core import S, SStr, is_sym, new_bool, new_bytes, new_int, new_real, new_str, Unsupported
from pyvc.ghost import NS, GhostNotes, accept, add_note_fn, conc, optional
from pyvc.verify import Contract, expect_ok, raises
from props.p03 import KEY, SDisplay, SToken, seq
from props.p23 import field_classes, pattern_of
import httplint.note
from httplint.field import HttpField
from httplint.field.list_field import HttpListField
from httplint.field.singleton_field import SingletonField
from httplint.field.broken_field import BrokenField
from httplint.field.structured_field import StructuredField
from httplint.field.json_field import JsonField
from httplint.field import deprecated, unnecessary
from httplint.field.deprecated import DeprecatedField
from httplint.field.finder import UnknownHttpField
from httplint.field.unnecessary import UnnecessaryField
from httplint.syntax import rfc9110
from httplint.types import ParamDictType
import http_sf
import httplint.content_type as CT
import httplint.field.utils as U
import httplint.message as M
import httplint.status as ST
from pyvc import runtime
from pyvc.models import in_lang
from pyvc.texts import prove_within
from props.message_state import md5_stubs
from props.p24 import QUOTED, TOKEN
from sniffpy import sniff as SNIFF

BASES = (HttpField, HttpListField, SingletonField, BrokenField, StructuredField, JsonField)


def own(cls, name):
    """does a field have a method of its own?"""
    return next((k for k in cls.__mro__ if name in vars(k)), HttpField) not in BASES


# --- values ---------------------------------------------------------------------------------------
class ADict(dict):
    """A dict of any contents: what is under a key is made when it is first asked for."""

    pv_model = pv_text = True

    def __init__(self, name, key, value):
        c = core.ctx()
        self.name, self.key, self.value, self.known = c.fresh(name, S).decl().name(), key, value, {}
        self.any = core.SBool(c.fresh(name + "_any", z3.BoolSort()))
        self.extra = {}

    def _at(self, k):
        c = core.ctx()
        kk = repr(core.z3val(k)) if is_sym(k) else k
        if kk not in self.known:
            has = core.SBool(c.fresh(f"{self.name}.has", z3.BoolSort()))
            self.known[kk] = [has, None, False]
            c.assume(z3.Implies(has.e, self.any.e))
        return self.known[kk]

    def __contains__(self, k):
        return bool(self.has(k))

    def has(self, k):
        hashable(k)
        return self._at(k)[0]

    scontains = has

    def _value(self, k):
        e = self._at(k)
        if not e[2]:
            e[1], e[2] = self.value(core.ctx(), f"{self.name}[]"), True
        return e[1]

    def __getitem__(self, k):
        if bool(self.has(k)):
            return self._value(k)
        raise KeyError(k)

    getitem = __getitem__

    def get(self, k, d=None):
        return self._value(k) if bool(self.has(k)) else d

    def pop(self, k, *d):
        v = self.get(k, *d) if d else self[k]
        self._at(k)[0] = core.SBool(z3.BoolVal(False))
        return v

    def __bool__(self):
        return bool(self.any)

    def _seq(self, f):
        s = seq(self.name, f)
        core.ctx().assume((core.z3val(s.slen()) > 0) == self.any.e)
        return s

    def items(self):
        return self._seq(lambda i: (self.key(core.ctx(), self.name), self.value(core.ctx(), self.name)))

    def keys(self):
        return self._seq(lambda i: self.key(core.ctx(), self.name))

    def values(self):
        return self._seq(lambda i: self.value(core.ctx(), self.name))

    def _no(self, *a, **k):
        raise Unsupported("dict of any contents")

    __iter__ = __len__ = __eq__ = __ne__ = __setitem__ = __delitem__ = update = setdefault = copy = clear = popitem = __or__ = _no
    __hash__ = None

    def __str__(self):
        raise Unsupported("text of a dict of any contents")

    __repr__ = __str__


class When(datetime.datetime):
    """any moment (http_sf only makes ones with a time zone)"""

    pv_model = pv_text = True

    def timestamp(self):
        return new_real("timestamp")

    def isoformat(self, *a, **k):
        return new_str("isoformat")


def text(c, name):
    return SStr(c.fresh(name, S))


models.TYPES[Token] = lambda x, *a, **k: SToken(core.z3val(x)) if is_sym(x) else Token(x, *a, **k)


def bare(c, name):
    """a bare Structured Fields value"""
    return core.SDyn([(str, lambda: text(c, name)), (Token, lambda: SToken(c.fresh(name, S))), (DisplayString, lambda: SDisplay(c.fresh(name, S))),
                      (int, lambda: core.SInt(c.fresh(name, z3.IntSort()))), (bool, lambda: core.SBool(c.fresh(name, z3.BoolSort()))),
                      (Decimal, lambda: core.SReal(c.fresh(name, z3.RealSort()))), (bytes, lambda: core.SBytes(c.fresh(name, S))),
                      (datetime.datetime, lambda: When(2000, 1, 1, tzinfo=datetime.timezone.utc))], name)


def params(c, name):
    return ADict(name + "_params", KEY, bare)


def listof(c, name, f):
    l = PList()
    l.sym = seq(c.fresh(name, S).decl().name(), lambda i: f(c, name))
    return l


def item(c, name):
    return bare(c, name), params(c, name)


def member(c, name):
    """an item or an inner list"""
    if c.choose(2, f"kind of {name}"):
        return listof(c, name, item), params(c, name)
    return item(c, name)


def sf(cls):
    return {"item": item, "list": lambda c, n: listof(c, n, member)}.get(cls.sf_type, lambda c, n: ADict(n, KEY, member))


def json(c, name):
    return core.SDyn([(dict, lambda: ADict(name, text, json)), (list, lambda: listof(c, name, json)), (str, lambda: text(c, "json:" + name)),
                      (int, lambda: core.SInt(c.fresh(name, z3.IntSort()))), (float, lambda: core.SReal(c.fresh(name, z3.RealSort()))),
                      (bool, lambda: core.SBool(c.fresh(name, z3.BoolSort()))), (type(None), lambda: None)], name)


def fields(t):
    return typing.get_type_hints(t) if dataclasses.is_dataclass(t) else None


def of_hint(t):
    """a maker of any value of an annotated type"""
    o, a = typing.get_origin(t), typing.get_args(t)
    if fields(t):
        def record(c, n):
            r = t.__new__(t)
            r.__dict__.update({k: of_hint(v)(c, f"{n}.{k}") for k, v in fields(t).items()})
            return r
        return record
    if o is list:
        return lambda c, n: listof(c, n, of_hint(a[0]))
    if t is str:
        return text
    if t is int:
        return lambda c, n: core.SInt(c.fresh(n, z3.IntSort()))
    if t is float:
        return lambda c, n: core.SReal(c.fresh(n, z3.RealSort()))
    if t is bool:
        return lambda c, n: core.SBool(c.fresh(n, z3.BoolSort()))
    if t is type(None):
        return lambda c, n: None
    if o is tuple:
        fs = [of_hint(x) for x in a]
        return lambda c, n: tuple(f(c, f"{n}.{i}") for i, f in enumerate(fs))
    if o is dict and a[0] is str:
        return lambda c, n: ADict(n, text, of_hint(a[1]))
    if o is typing.Union:
        return lambda c, n: of_hint(a[c.choose(len(a), f"type of {n}")])(c, n)
    raise Unsupported(f"values of {t}")


HINTS = {"cross_origin_resource_policy": str, "alt_svc": str}  # annotated more widely than what they return (checked by their contracts)


def hint(cls):
    if cls.__name__ in HINTS:
        return HINTS[cls.__name__]
    return typing.get_type_hints(cls.parse)["return"] if own(cls, "parse") else str


def conforms(v, t):
    """is a result of the annotated type?"""
    o, a = typing.get_origin(t), typing.get_args(t)
    v = core.unopt(v)
    if fields(t):
        return isinstance(v, t) and all(conforms(getattr(v, k), h) for k, h in fields(t).items())
    if t in (str, int, float, bool):
        return isinstance(v, t)
    if t is type(None):
        return v is None
    if o is tuple:
        return isinstance(v, tuple) and len(v) == len(a) and all(conforms(x, y) for x, y in zip(v, a))
    if o is dict:
        if isinstance(v, ADict):
            return v.extra.get("hint") == t
        if isinstance(v, PDict) and not v.is_symbolic():
            return all(conforms(k, a[0]) and conforms(x, a[1]) for k, x in dict.items(v))
        raise Unsupported("contents of a dict")
    if o is typing.Union:
        return any(conforms(v, x) for x in a)
    raise Unsupported(f"values of {t}")


def value(cls):
    """a maker of any value a field can have once it is parsed and evaluated"""
    if issubclass(cls, StructuredField):
        return sf(cls)
    if issubclass(cls, JsonField):
        return lambda c, n: listof(c, n, json)
    f = of_hint(hint(cls))
    return (lambda c, n: listof(c, n, f)) if issubclass(cls, (HttpListField, BrokenField)) else f


# --- messages -------------------------------------------------------------------------------------
def by_name():
    return {c.canonical_name.lower(): c for c in field_classes()}


ALWAYS = {"content_type"}  # parse never raises


def headers(c, kind, tag):
    names = by_name()

    def make(k):
        cls = names.get(k)
        if cls is None:
            raise Unsupported(f"another field: {k}")
        if not (cls._valid_in_requests if kind == "request" else cls._valid_in_responses):
            return None
        if not issubclass(cls, HttpListField) and cls.__name__ not in ALWAYS and c.choose(2, f"{k} is parsed"):
            return None
        return value(cls)(c, f"{tag}{k}")

    return NS(parsed=LazyDict(tag + "parsed", make), handlers=LazyDict(tag + "handlers", lambda k: None), text=listof(c, tag + "text", lambda c, n: (text(c, n), text(c, n))))


class Noted(PList):
    """the notes so far: any number, of any class"""

    def __init__(self, c):
        PList.__init__(self)
        self.sym = seq("notes", lambda i: self.one(c))

    def one(self, c):
        import httplint.field.parsers.content_security_policy as P

        ns = [httplint.note.Note, P.CONTENT_SECURITY_POLICY]
        cls = ns[c.choose(len(ns), "a note")]
        return type(cls.__name__, (cls,), {"__init__": lambda self: None, "__hash__": object.__hash__, "add_child": lambda self, note, **vrs: accept(vrs) or self})()

    def add(self, subject, note, category=None, **vrs):
        return add_note_fn()(note, category, **vrs)


def message(c, kind, tag=""):
    m = NS(message_type=kind, notes=Noted(c), version=optional(tag + "version", new_str(tag + "version")), is_trailer=False)
    m.headers = headers(c, kind, tag)
    m.base_uri = new_str(tag + "base_uri")
    m.start_time = optional(tag + "start_time", new_real(tag + "start_time"))
    m.as_request = m.as_response = None
    if kind == "request":
        m.as_request = m
        m.method, m.uri = optional(tag + "method", new_str(tag + "method")), optional(tag + "uri", new_str(tag + "uri"))
        m.response = None
    else:
        m.as_response = m
        m.status_code, m.status_code_str = optional("status", new_int("status")), new_str("status_text")
        m.request = core.SDyn([(type(None), lambda: None), (NS, lambda: message(c, "request", "request_"))], "request")
    return m


def cached(c, m):
    """once caching is judged (responses only, before post_check)"""
    if m.message_type == "response" and c.choose(2, "caching is judged"):
        m.caching = NS(store_shared=new_bool("store_shared"), store_private=new_bool("store_private"))


def instance(c, cls):
    c.wire = True
    kinds = [k for k, ok in (("response", cls._valid_in_responses), ("request", cls._valid_in_requests)) if ok]
    m = message(c, kinds[c.choose(len(kinds), "the message")])
    return cls(cls.canonical_name, m)


# --- what the fields call, by contract --------------------------------------------------------------
def stubs(ctx):
    def p_dict(*a, **k):
        d = ADict("params", text, of_hint(typing.Optional[str]))
        d.extra["hint"] = ParamDictType
        return d

    def http_date(*a, **k):  # P14: a whole number, or ValueError
        if ctx.choose(2, "the date is read"):
            return core.SInt(ctx.fresh("date", z3.IntSort()))
        raise ValueError("date")

    def url(*a, **k):  # of the library: a result, or ValueError
        if ctx.decide(ctx.fresh("unparseable", z3.BoolSort())):
            raise ValueError("url")
        return NS(scheme=text(ctx, "scheme"), netloc=text(ctx, "netloc"), hostname=optional("hostname", text(ctx, "hostname")), path=text(ctx, "path"),
                  query=text(ctx, "query"), fragment=text(ctx, "fragment"))

    def join(*a, **k):
        if ctx.decide(ctx.fresh("unjoinable", z3.BoolSort())):
            raise ValueError("url")
        return text(ctx, "joined")

    ctx.stubs.update({
        "httplint.field.utils.parse_params": p_dict,
        "httplint.field.utils.parse_media_type": lambda *a, **k: (text(ctx, "media_type"), p_dict()),
        "httplint.field.utils.check_media_type": lambda *a, **k: None,
        "httplint.field.utils.unquote_string": lambda *a, **k: text(ctx, "unquoted"),
        "httplint.field.utils.parse_http_date": http_date,
        "httplint.field.utils.check_sf_params": lambda *a, **k: text(ctx, "described"),
        "httplint.util.code_text": lambda v: text(ctx, "code_text"),
        "httplint.util.relative_time": lambda *a, **k: text(ctx, "relative_time"),
        "httplint.util.f_num": lambda *a, **k: text(ctx, "f_num"),
        "httplint.note.MarkdownSafe": lambda v: v,
        "urllib.parse.urlsplit": url, "urllib.parse.urlparse": url, "urllib.parse.urljoin": join,
        "httplint.field.cors.check_access_control_allow_origin": lambda *a, **k: None,
    })
    ctx.loop_specs = {}
    ctx.loose = True
    ctx.feas_ms = 40  # a path that is not known to be dead is followed
    ctx.solver.set("timeout", ctx.feas_ms)


def parse(cls):
    def body(ctx):
        stubs(ctx)
        h = instance(ctx, cls)
        v = new_str("value")
        ctx.witness = lambda m: {"field": cls.canonical_name, "kind": h.message.message_type, "value": conc(m, v)}
        st, got = raises(ctx, h.parse, v, add_note_fn())
        ctx.prove(st == "ok" or isinstance(got, ValueError), f"{cls.__name__}.parse raises nothing but ValueError", info=lambda: repr(got)[:200])
        if cls.__name__ in ALWAYS:
            ctx.prove(st == "ok", f"{cls.__name__}.parse raises nothing", info=lambda: repr(got)[:200])
        if st == "ok" and cls.__name__ not in ELSEWHERE and (own(cls, "evaluate") or own(cls, "post_check") or cls.canonical_name.lower() in READ):
            ctx.prove(conforms(got, hint(cls)), f"{cls.__name__}.parse returns what it is annotated with", info=lambda: repr(shape_of(got))[:200])
        ctx.cover("parsed" if st == "ok" else "rejected")
    return body


READ = {"accept-encoding", "te", "content-encoding", "vary", "age", "date", "origin", "transfer-encoding"}  # fields other fields look at


def state(ctx, h, n):
    """what the constructor makes and parse and evaluate fill"""
    for k, v in list(h.__dict__.items()):
        if type(v) in (list, PList) and k not in ("value", "raw_values") and not list.__len__(v):
            s = {"_deferred_notes": lambda c, n: (object(), {"directives_list": text(c, n), "report_only_text": text(c, n)})}.get(k)
            if k == "_clean_policies":
                l = PList()
                l.sym = SList("clean", maker=Maker("clean", {"bool"}), length=core.z3val(n))
                h.__dict__[k] = l
            elif k == "_unquoted_values":
                h.__dict__[k] = listof(ctx, k, text)
            elif s:
                h.__dict__[k] = listof(ctx, k, s)
            else:
                raise Unsupported(f"state of the field: {k}")


ELSEWHERE = {"cache_control": "P25", "set_cookie": "P15", "strict_transport_security": "P16", "content_security_policy": None,
             "content_security_policy_report_only": None}  # what evaluate needs of parse's result: the contracts of that property


def evaluate(cls, which="evaluate"):
    def body(ctx):
        stubs(ctx)
        h = instance(ctx, cls)
        h.value = value(cls)(ctx, "value")
        if which == "post_check":
            cached(ctx, h.message)
        if which == "post_check" or "_clean_policies" not in h.__dict__:
            state(ctx, h, h.value.slen() if isinstance(h.value, PList) else 0)
        if issubclass(cls, StructuredField):
            h._sf_parsed = True
        st, got = raises(ctx, getattr(h, which), add_note_fn())
        ctx.prove(st == "ok", f"{cls.__name__}.{which} raises nothing", info=lambda: repr(got)[:200])
        ctx.cover("done")
    return body


# --- what calls the fields, and the rest of the library -------------------------------------------
def quiet(ctx):
    ctx.loop_specs = {}
    ctx.loose = True
    ctx.feas_ms = 40
    ctx.solver.set("timeout", ctx.feas_ms)


def without_nul(ctx, s):
    ctx.assume(z3.Not(z3.Contains(core.z3val(s), z3.StringVal("\0"))))
    return s


def parameter_text(ctx):
    """the text of a parameter (P24: what unquote_string makes of a token or a quoted string) has no NUL"""
    nul = relang.lang(r"(?s).*\x00.*\Z")
    ctx.prove(relang.meet(QUOTED, nul) is None and relang.meet(TOKEN, nul) is None, "internal: neither a token nor a quoted string has a NUL")
    ctx.wire = ctx.derive = True
    s = new_str("value")
    ctx.assume(in_lang(s, QUOTED if ctx.choose(2, "quoted") else TOKEN))
    ctx.memo["excl", s.e.decl().name()] = frozenset("\0")
    out = expect_ok(ctx, "unquote_string", U.unquote_string, s)
    ctx.witness = lambda m: {"value": conc(m, s)}
    prove_within(out, r"[^\x00]*", "internal: the text of a parameter has no NUL")


def process_headers(ctx):
    """the charset is looked up: an unknown name, or none, is passed over"""
    quiet(ctx)
    names = ADict("params", text, lambda c, n: None if c.choose(2, "valueless") else without_nul(c, text(c, n)))

    def lookup(name):
        if name is None:
            raise TypeError("lookup() argument must be str, not None")
        if ctx.decide(z3.Contains(core.z3val(name), z3.StringVal("\0"))):
            raise ValueError("embedded null character")
        if ctx.choose(2, "known"):
            return object()
        raise LookupError("unknown encoding")

    ctx.stubs["_codecs.lookup"] = lookup
    value_ = text(ctx, "type"), names  # content_type.parse always returns (below)
    for cls in (M.HttpRequestLinter, M.HttpResponseLinter):
        lint = cls.__new__(cls)
        lint.__dict__.update(notes=GhostNotes(), character_encoding=None, headers=NS(
            process=lambda raw: None, parsed=LazyDict("parsed", lambda k: value_ if k == "content-type" else None)))
        expect_ok(ctx, f"{cls.__name__}.process_headers", lint.process_headers, listof(ctx, "raw", lambda c, n: (new_bytes(n), new_bytes(n))))
    ctx.cover("done")


def verify_content_type(ctx):
    quiet(ctx)

    def sniff(*a, **k):
        if ctx.choose(2, "sniffed"):
            return core.SDyn([(str, lambda: text(ctx, "sniffed")), (type(None), lambda: None)], "sniffed")
        raise Exception("sniffpy")

    kind = ("request", "response")[ctx.choose(2, "kind")]
    lint = message(ctx, kind)
    lint.content_hash, lint.content_sample = optional("hash", new_bytes("hash")), new_bytes("sample")
    if kind == "response":
        lint.is_head_response = new_bool("head")
    ctx.stubs["sniffpy.sniff"] = ctx.stubs["sniffpy.sniff.sniff"] = ctx.stubs[f"{SNIFF.__module__}.{SNIFF.__qualname__}"] = sniff
    expect_ok(ctx, "verify_content_type", CT.verify_content_type, lint)
    ctx.cover("done")


def get_header(ctx):
    quiet(ctx)
    ctx.wire = True
    expect_ok(ctx, "get_header", ST.get_header, listof(ctx, "fields", lambda c, n: (text(c, n), text(c, n))), "range")
    ctx.cover("done")


def splitting(ctx):
    """what list and parameter values are divided into: texts"""
    quiet(ctx)
    ctx.wire = True
    which = ctx.choose(2, "which")
    v = new_str("value")
    out = expect_ok(ctx, "split_string", U.split_string, v, U.PARAMETER, r"\s*;\s*") if which else expect_ok(ctx, "split_list_field", U.split_list_field, v)
    if not isinstance(out, PList) or out.sym is None:
        ctx.prove(isinstance(out, list) and all(isinstance(x, str) for x in out), "internal: the result is a list of texts")
    else:
        x, conds = out.sym.any_elem(ctx.fresh("element", z3.IntSort()))
        ctx.prove(isinstance(core.unopt(x), str), "internal: the result is a list of texts")
    ctx.cover(str(which))


def construction(ctx):
    """a linter made as the library's users make it"""
    cls = (M.HttpRequestLinter, M.HttpResponseLinter)[ctx.choose(2, "kind")]
    ctx.stubs.update(md5_stubs(ctx))
    other = NS() if ctx.choose(2, "related") else None
    lint = expect_ok(ctx, cls.__name__, runtime.call, cls, start_time=optional("start", new_real("start")), no_content=new_bool("no_content"), _related=other)
    for n in ("as_request", "as_response", "request" if cls is M.HttpResponseLinter else "response"):
        expect_ok(ctx, n, getattr, lint, n)
    ctx.prove(lint.headers.is_trailer is False and lint.trailers.is_trailer is True, "internal: the sections are headers and trailers")
    ctx.cover("done")


def kinds():
    """every class a field can have"""
    from httplint.field.finder import UnknownHttpField

    return sorted(field_classes(), key=lambda c: c.__name__) + [DeprecatedField, UnnecessaryField, UnknownHttpField]


def life(cls):
    """a field's constructor and what is common to all fields, whatever its class"""
    def body(ctx):
        stubs(ctx)
        ctx.wire = True
        n = {DeprecatedField: list(deprecated.field_lookup), UnnecessaryField: list(unnecessary.UNNECESSARY_FIELDS)}.get(cls, [None])
        n = n[ctx.choose(len(n), "name")]
        wire = n.title() if n else getattr(cls, "canonical_name", None) or new_str("name")
        kind = ("request", "response")[ctx.choose(2, "the message")]
        h = expect_ok(ctx, f"{cls.__name__} of a field", runtime.call, cls, wire, message(ctx, kind))
        ctx.witness = lambda m: {"field": conc(m, wire), "kind": kind}
        ctx.prove(h.value is not None, "internal: a new field has no value yet, and takes input")
        ctx.stubs["re.match"] = match
        if bool(expect_ok(ctx, f"{cls.__name__}.pre_check", h.pre_check, add_note_fn())) and not issubclass(cls, HttpListField):
            ctx.cover("valid")
            for _ in range(2):
                expect_ok(ctx, f"{cls.__name__}.handle_input", h.handle_input, new_str("value"), add_note_fn(), 0)
        if cls in (DeprecatedField, UnnecessaryField):
            ctx.cover("valid")
            expect_ok(ctx, f"{cls.__name__}.parse", h.parse, new_str("value"), add_note_fn())
            expect_ok(ctx, f"{cls.__name__}.finish", h.finish, add_note_fn())
        if cls is UnknownHttpField:
            expect_ok(ctx, "parse", h.parse, new_str("value"), add_note_fn())
            expect_ok(ctx, "finish", h.finish, add_note_fn())

    def match(pattern, s, flags=0):
        re.compile(pattern, flags)
        c = core.ctx()
        return NS() if c.choose(2, "match") else None

    return body


def json_finish(ctx):
    """what the field lines say is read as JSON, or is noted"""
    quiet(ctx)

    class Field(JsonField):
        canonical_name, description, reference, syntax = "Field", "x", "about:blank", False

    def loads(s, *a, **k):
        k = ctx.choose(3, "outcome")
        if k == 2:
            return listof(ctx, "json", json)
        raise (ValueError if k else RecursionError)("json")

    h = Field("Field", message(ctx, "response"))
    h.value = listof(ctx, "lines", text)
    ctx.stubs["json.loads"] = loads
    st = []
    h.__dict__["evaluate"] = lambda add_note: st.append(h.value)
    expect_ok(ctx, "finish", h.finish, add_note_fn())
    ctx.prove(not any(v is None for v in st), "internal: evaluate is called with a value")
    ctx.cover("done")


def finish(base):
    """what is common to the fields of a kind: parse is called on each value and may raise ValueError"""
    def body(ctx):
        quiet(ctx)

        class Field(base):
            canonical_name, description, reference, syntax = "Field", "x", "about:blank", False
            parse = evaluate = lambda self, *a: None

        h = Field("Field", message(ctx, "response"))
        st = []
        last = {}

        def parse_(value, add_note):
            if ctx.choose(2, "parses"):
                return last.setdefault("v", None if ctx.choose(2, "nothing") else object())
            raise ValueError("unparseable")

        h.__dict__["parse"] = parse_
        h.__dict__["evaluate"] = lambda add_note: st.append(h.value)
        if base is HttpListField:
            ctx.stubs["httplint.field.utils.split_list_field"] = lambda s: listof(ctx, "values", text)
            expect_ok(ctx, "handle_input", h.handle_input, new_str("value"), add_note_fn(), new_int("offset"))
            expect_ok(ctx, "handle_input", h.handle_input, new_str("value"), add_note_fn(), new_int("offset"))
        else:
            h.raw_values = listof(ctx, "values", text if base is SingletonField else lambda c, n: (text(c, n), core.SInt(c.fresh(n, z3.IntSort()))))
        expect_ok(ctx, "finish", h.finish, add_note_fn())
        ctx.prove(not any(v is None for v in st), "internal: evaluate is called with a value")
        ctx.cover("done")

    return body


MARK = "(?:MARK)"


def syntax(base):
    """what each field line, or element of it, is matched against"""
    def body(ctx):
        stubs(ctx)
        ctx.wire = True
        as_list = base is HttpListField and ctx.choose(2, "list rule")

        class Field(base):
            canonical_name, description, reference = "Field", "x", "about:blank"
            syntax = rfc9110.list_rule(MARK) if as_list else MARK
            parse = evaluate = lambda self, *a: None

        def match(pattern, s, flags=0):
            ctx.patterns.add(("match", pattern, int(flags)))
            return SOME_MATCH if ctx.choose(2, "match") else None

        h = Field("Field", message(ctx, "response"))
        ctx.stubs["re.match"] = match
        ctx.stubs["httplint.field.utils.split_list_field"] = lambda s: [s]
        v = new_str("value")
        ctx.assume(z3.Length(v.e) > 0)
        expect_ok(ctx, "handle_input", h.handle_input, v, add_note_fn(), 0)
        expect_ok(ctx, "finish", h.finish, add_note_fn())
        ctx.prove(any(MARK in p for _, p, _ in ctx.patterns), "internal: values are matched against the field's syntax")
        ctx.cover("done")

    return body


SOME_MATCH = NS(end=lambda *a: 0, start=lambda *a: 0, span=lambda *a: (0, 0), group=lambda *a: "")


def each_field(base):
    """the patterns that one with MARK stands for"""
    def expand(pattern):
        if MARK not in pattern:
            return [(pattern, None)]
        return [(pattern.replace(MARK, pattern_of(c)), lambda text, c=c: {"field": c.canonical_name, "request": not c._valid_in_responses,
                                                                         "text": text})
                for c in field_classes() if issubclass(c, base) and c.syntax]
    return expand


def structured_finish(ctx):
    """what http_sf makes of the field lines, or what it raises"""
    quiet(ctx)

    class Field(StructuredField):
        canonical_name, description, reference = "Field", "x", "about:blank"

    def sf_parse(value, *a, on_duplicate_key=None, **k):
        if on_duplicate_key is not None and ctx.choose(2, "a key is repeated"):
            on_duplicate_key(text(ctx, "key"), "dictionary")
        k = ctx.choose(4, "outcome")
        if k == 0:
            return object()
        if k == 1:
            e = http_sf.StructuredFieldError(text(ctx, "why"))
            e.position = optional("position", new_int("position", 0))
            raise e
        raise (ValueError if k == 2 else Exception)("http_sf")

    h = Field("Field", message(ctx, "response"))
    h.value = listof(ctx, "lines", text)
    h._sf_parsed = new_bool("parsed already")
    ctx.stubs[f"{http_sf.parse.__module__}.{http_sf.parse.__qualname__}"] = sf_parse
    ctx.stubs["httplint.util.code_text"] = lambda v: text(ctx, "code_text")
    ctx.stubs["httplint.note.MarkdownSafe"] = lambda v: v
    st = []
    h.__dict__["evaluate"] = lambda add_note: st.append(h.value)
    expect_ok(ctx, "finish", h.finish, add_note_fn())
    ctx.prove(not any(v is None for v in st), "internal: evaluate is called with a value")
    ctx.cover("done")


def common():
    F = "httplint.field."
    yield Contract("text of a parameter", parameter_text, functions=[F + "utils.unquote_string"], secs=60)
    yield Contract("process_headers", process_headers, functions=["httplint.message.HttpMessageLinter.process_headers"], covers=["done"])
    yield Contract("verify_content_type", verify_content_type, functions=["httplint.content_type.verify_content_type"], covers=["done"])
    yield Contract("get_header", get_header, functions=["httplint.status.get_header"], covers=["done"])
    yield Contract("splitting", splitting, functions=[F + "utils.split_string", F + "utils.split_list_field"], covers=["0", "1"])
    yield Contract("construction", construction, functions=["httplint.message.HttpMessageLinter.__init__", F + "section.FieldSection.__init__",
                                                           "httplint.message.HttpMessageLinter.as_request", "httplint.message.HttpMessageLinter.as_response",
                                                           "httplint.message.HttpRequestLinter.response", "httplint.message.HttpResponseLinter.request"], covers=["done"])
    for cls in kinds():
        yield Contract(f"{cls.__name__}: construction and input", life(cls), functions=[f"{cls.__module__}.{cls.__name__}"], covers=["valid"] if not (
            issubclass(cls, HttpListField) and cls not in (DeprecatedField, UnnecessaryField)) else [])
    yield Contract("JsonField.finish", json_finish, functions=[F + "json_field.JsonField.finish"], covers=["done"])
    yield Contract("StructuredField.finish", structured_finish, functions=[F + "structured_field.StructuredField.finish"], covers=["done"])
    for base in (HttpListField, SingletonField, BrokenField):
        yield Contract(f"{base.__name__}.finish", finish(base), functions=[f"{base.__module__}.{base.__name__}.finish"], covers=["done"])
        yield Contract(f"{base.__name__}: syntax", syntax(base), functions=[f"{base.__module__}.{base.__name__}.{m}" for m in ("handle_input", "finish")],
                       covers=["done"], steps=each_field(base))


RAISE = re.compile(r"raise|invariant|internal:|^httplint\.|no other exception")
REUSED = {"p04": None, "p05": None, "p06": None, "p07": None, "p08": None, "p09": None, "p10": None, "p11": None, "p12": None, "p13": None,
          "p14": None, "p15": None, "p16": None, "p17": None, "p18": None, "p20": None, "p21": None, "p22": None, "p23": "judge",
          "p24": None, "p25": None, "p02": r"^(Notes.add|RelativeTime|display_bytes|what fields report with)",
          "p03": r"^(check_sf_params|cache_status|proxy_status|code_text|markdown_list|content_security_policy|link|set_cookie.eval)", "p19": "^(Notes|set_locale|get_translations)"}


def reused(p):
    import importlib

    for c in importlib.import_module("props." + p).contracts():
        if REUSED[p] is not None and not re.search(REUSED[p], c.name):
            continue
        yield Contract(f"{p.upper()} {c.name}", c.body, functions=c.functions, stubs=c.stubs, loops=c.loops, paths=c.paths, secs=c.secs, setup=c.setup,
                       only=lambda clause: clause is not None and bool(RAISE.search(clause)))


DONE = {"cache_control.evaluate", "set_cookie.parse", "set_cookie.evaluate", "strict_transport_security.parse",
        "strict_transport_security.evaluate"}  # by the contracts of P25, P15 and P16


def contracts():
    out = []
    for cls in sorted(field_classes(), key=lambda c: c.__name__):
        q = f"{cls.__module__}.{cls.__name__}."
        if own(cls, "parse") and f"{cls.__name__}.parse" not in DONE:
            out.append(Contract(f"{cls.__name__}.parse", parse(cls), functions=[q + "parse"], covers=["parsed"], secs=40))
        for m in ("evaluate", "post_check"):
            if own(cls, m) and f"{cls.__name__}.{m}" not in DONE:
                out.append(Contract(f"{cls.__name__}.{m}", evaluate(cls, m), functions=[q + m], covers=["done"], secs=250))
    out += common()
    for p in REUSED:
        out += reused(p)
    for c in out:
        c.steps = c.steps or True
    return out
