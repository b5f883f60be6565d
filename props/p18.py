"""P18: CORS roles and origin matching."""
import z3
from pyvc.verify import Contract, raises
from pyvc.ghost import NS, notes, conc, optional, GhostNotes, add_note_fn
from pyvc.core import new_int, new_str, new_bool, ctx as cur, Unsupported
from pyvc.containers import LazyDict
from pyvc.models import in_lang
from pyvc import relang
import httplint.field.cors as CO
from httplint.field.parsers.origin import OriginValue, origin
from httplint.field.parsers.access_control_allow_origin import access_control_allow_origin
from spec import cors as SP
from spec import grammar as GR

Q = "httplint.field.cors."
ALL = ("origin", "access-control-request-method", "access-control-request-headers",
       "access-control-allow-origin") + tuple(n for n, _ in SP.PREFLIGHT_ONLY)


ORIGIN = relang.from_nfa(lambda n, s: n.repeat(GR.fill(n, s, GR.tree("serialized-origin")), lambda a: n.chars(a, 1 << 10), 0, 1))


def is_none(o):
    return cur().decide(o.none)


def request(tag="req"):
    parsed = LazyDict(tag, lambda k: optional(f"{tag}[{k}]", new_str(f"{tag}[{k}].v")))
    return NS(method=optional(tag + ".method", new_str(tag + ".method")), headers=NS(parsed=parsed), notes=GhostNotes(tag))


def wit_req(r):
    return lambda m: {"method": conc(m, r.method), "req": [n for n in ALL if conc(m, r.headers.parsed.has(n))]}


def method(r):
    return None if is_none(r.method) else r.method.val


def preflight_request(ctx):
    r = request()
    ctx.witness = wit_req(r)
    st, got = raises(ctx, CO.check_preflight_request, r)
    ctx.prove(st == "ok", "the check does not raise", info=lambda: str(got))
    has = lambda n: bool(r.headers.parsed.has(n))
    want = SP.request_notes(method(r), has)
    ctx.cover(",".join(want))
    ctx.prove(sorted(x.name for x in notes()) == sorted(want), "exactly the preflight notes that apply",
              info=lambda: f"{notes()}, expected {want}")


def preflight_response(ctx):
    known = bool(new_bool("known"))
    r = request() if known else None
    acao = optional("acao", new_str("acao"))
    parsed = LazyDict("res", lambda k: acao if k == "access-control-allow-origin" else optional(f"res[{k}]", new_int(f"res[{k}].v")))
    handlers = {n: NS(canonical_name=c) for n, c in SP.PREFLIGHT_ONLY}
    res = NS(request=r, headers=NS(parsed=parsed, handlers=handlers), notes=GhostNotes("res"))
    ctx.witness = lambda m: dict(wit_req(r)(m) if known else {}, known=known, acao=conc(m, acao),
                                 res=[n for n in ALL if conc(m, parsed.has(n))])
    st, got = raises(ctx, CO.check_preflight_response, res)
    ctx.prove(st == "ok", "the check does not raise", info=lambda: str(got))
    pre = known and SP.is_preflight(method(r), lambda n: bool(r.headers.parsed.has(n)))
    a = acao.val if bool(parsed.has("access-control-allow-origin")) and not is_none(acao) else None
    want, listed = SP.response_notes(pre, lambda n: bool(parsed.has(n)), a)
    ctx.cover(",".join(want))
    ctx.prove(sorted(x.name for x in notes()) == sorted(want), "exactly the notes that apply to the response's fields",
              info=lambda: f"{notes()}, expected {want}")
    for x in notes({"CORS_PREFLIGHT_ONLY"}):
        ctx.prove(x.vars.get("headers") == ", ".join(listed), "the note lists exactly the preflight-only fields")


def allow_origin(ctx):
    known = bool(new_bool("known"))
    has_origin = known and bool(new_bool("has_origin"))
    port = optional("port", new_int("port", 0))
    ov = OriginValue(new_str("scheme"), new_str("host"), port)
    null = bool(new_bool("null"))
    parsed = {}
    if has_origin:
        parsed["origin"] = None if null else ov
    acao = new_str("acao")
    res = NS(request=NS(headers=NS(parsed=parsed)) if known else None, notes=GhostNotes("res"))
    h = access_control_allow_origin.__new__(access_control_allow_origin)
    h.__dict__.update(value=acao, message=res)
    ctx.witness = lambda m: {"acao": conc(m, acao), "origin": None if not has_origin else
                             "null" if null else (conc(m, ov.scheme), conc(m, ov.host), conc(m, port))}
    st, got = raises(ctx, h.evaluate, add_note_fn("field"))
    ctx.prove(st == "ok", "evaluating the field does not raise", info=lambda: str(got))
    tr = [x.name for x in notes()]
    if not has_origin:
        ctx.cover("no origin")
        ctx.prove(tr == [], "no origin note without a request origin", info=lambda: str(tr))
        return
    p = None if null or is_none(port) else port.val
    want = SP.origin_note(acao, "null" if null else SP.serialise(ov.scheme, ov.host, p))
    ctx.cover(want)
    ctx.prove(tr == [want], "exactly the note the comparison calls for", info=lambda: f"{tr}, expected {want}")


def parse_origin(ctx):
    s = new_str("value")
    ctx.assume(z3.Not(in_lang(s, relang.lang("^[\\s\\S]*\n$"))))  # field values are stripped
    ctx.assume(z3.Length(s.e) <= 4300)  # int()'s limit on a port's digits
    ctx.witness = lambda m: {"value": conc(m, s)}
    h = origin.__new__(origin)
    h.__dict__.update(message=NS(message_type="request"))
    st, got = raises(ctx, h.parse, s, add_note_fn())
    tr = [x.name for x in notes()]
    if s == "null":
        ctx.cover("null")
        ctx.prove(st == "ok" and got is None and not tr, "the null origin has no value and no note")
        return
    parts = s.split(" ")
    first = parts[0]
    good = cur().decide(in_lang(first, ORIGIN))
    want = ["ORIGIN_MULTIPLE_VALUES"] if " " in s else []
    ctx.cover("good" if good else "bad")
    if good:
        ctx.prove(st == "ok" and type(got) is OriginValue, "a serialised origin is accepted")
        ctx.prove(tr == want, "a serialised origin gets no note, except that further ones are noted", info=lambda: str(tr))
    else:
        ctx.prove(st == "raise" and isinstance(got, ValueError), "anything else is rejected")
        ctx.prove(sorted(tr) == sorted(want + ["BAD_ORIGIN_SYNTAX"]), "it is noted once", info=lambda: str(tr))


def contracts():
    return [
        Contract("parse_origin", parse_origin, functions=["httplint.field.parsers.origin.origin.parse"],
                 covers=["null", "good", "bad"]),
        Contract("preflight_request", preflight_request,
                 functions=[Q + "check_preflight_request", Q + "is_cors_preflight_request"],
                 covers=["", "CORS_PREFLIGHT_REQUEST", "CORS_PREFLIGHT_REQ_NO_METHOD"]),
        Contract("preflight_response", preflight_response, functions=[Q + "check_preflight_response"],
                 covers=["", "CORS_PREFLIGHT_RESPONSE", "CORS_PREFLIGHT_ONLY", "ACAO_MULTIPLE_VALUES"]),
        Contract("allow_origin", allow_origin, functions=[Q + "check_access_control_allow_origin"],
                 covers=["no origin"] + sorted(SP.ORIGIN_NOTES)),
    ]
