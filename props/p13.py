"""P13: fields that do not belong in the message, are misnamed or deprecated (httplint/field/__init__.py, deprecated.py)."""
import z3
from pyvc import relang
from pyvc.core import new_str
from pyvc.ghost import NS, GhostNotes, add_note_fn, conc, notes
from pyvc.models import in_lang
from pyvc.runtime import same
from pyvc.verify import Contract, raises
from httplint.field import HttpField
from httplint.field.deprecated import DeprecatedField
from httplint.field.finder import UnknownHttpField
from httplint.field.unnecessary import UnnecessaryField
from props import p11
from props.p23 import field_classes
from spec import fields as SP

TOKEN = r"[!#$%&'*+.^_`|~0-9A-Za-z-]+"
GATES = {"RESPONSE_HDR_IN_REQUEST", "REQUEST_HDR_IN_RESPONSE", "FIELD_NAME_BAD_SYNTAX", "FIELD_DEPRECATED"}
GENERIC = [UnknownHttpField, UnnecessaryField, DeprecatedField]


def judged(c):
    """(in requests, in responses, deprecated)"""
    names = SP.of_class(c.__name__)
    n = names[0] if names else None
    if c in (UnknownHttpField, UnnecessaryField):
        return (True, True, False)
    if c is DeprecatedField:
        return (True, True, True)
    if n is None or n in SP.UNJUDGED:  # the specification does not say
        return (c._valid_in_requests, c._valid_in_responses, bool(c.deprecated))
    return (*SP.messages(n), SP.deprecated(n))


def state(h):
    return {k: v for k, v in h.__dict__.items() if k != "value"}


def gate(part):
    def run(ctx):
        """a line's name is judged, whatever lines came before"""
        ctx.wire = ctx.derive = True  # names are decoded as ASCII (P11)
        cs = (field_classes() + GENERIC)[part[0]::part[1]]
        c = cs[ctx.choose(len(cs), "the field")]
        kind = ("request", "response")[ctx.choose(2, "message")]
        in_req, in_resp, old = judged(c)
        h = c.__new__(c)
        name = new_str("name")
        HttpField.__init__(h, name, NS(message_type=kind, notes=GhostNotes("message")))
        if not hasattr(h, "reference"):
            h.reference = "about:blank"
        h.value = here = object()
        ctx.functions.add(f"{c.__module__}.{c.__name__}")
        ctx.witness = lambda m: {"names": [conc(m, name)] * 2, "field": c.__name__, "req": kind == "request"}
        before = state(h)
        right = in_req if kind == "request" else in_resp
        token = in_lang(h.wire_name, relang.wire(relang.lang("^" + TOKEN + r"\Z")))
        for line in ("the first line", "a further line"):
            n = len(notes())
            status, got = raises(ctx, c.pre_check, h, add_note_fn())
            ctx.prove(status == "ok", "the check never raises", info=lambda: repr(got))
            if status != "ok":
                return
            new = [r.name for r in notes()][n:]
            if not right:
                ctx.cover("misplaced")
                want = "RESPONSE_HDR_IN_REQUEST" if kind == "request" else "REQUEST_HDR_IN_RESPONSE"
                ctx.prove(new == [want], f"a misplaced field gets one note, for {line}", info=lambda: f"{c.__name__}: {new}")
                ctx.prove(got is False or got is None, "and is not accepted")
                ctx.prove(h.value is None, "and has no value")
            elif not ctx.decide(token):
                ctx.cover("misnamed")
                ctx.prove(new == ["FIELD_NAME_BAD_SYNTAX"], f"a name that is not a token gets one note, for {line}", info=lambda: f"{c.__name__}: {new}")
                ctx.prove(got is False or got is None, "and its line is not accepted")
            else:
                ctx.cover("deprecated" if old else "accepted")
                ctx.prove(new == (["FIELD_DEPRECATED"] if old else []), f"only a deprecated field's accepted line gets its note, for {line}",
                          info=lambda: f"{c.__name__}: {new}")
                ctx.prove(got is True, "and any other line is accepted")
                ctx.prove(h.value is here, "without a change of its value")
            now = state(h)
            ctx.prove(set(now) - {"deprecated"} == set(before) - {"deprecated"} and all(same(now[k], before[k]) for k in before),
                      "the field is as before", info=lambda: f"{before} {now}")
            ctx.prove(bool(h.deprecated) == bool(c.deprecated), "also in being deprecated")
    return run


def unread(ctx):
    """a misplaced field ends without a value and without a note"""
    cs = [(c, k) for c in field_classes() for k, ok in (("request", c._valid_in_requests), ("response", c._valid_in_responses)) if not ok]
    c, kind = cs[ctx.choose(len(cs), "the field")]
    ctx.witness = lambda m: {"names": [c.canonical_name] * 2, "field": c.__name__, "req": kind == "request"}
    ctx.functions.add(f"{c.__module__}.{c.__name__}")
    message = NS(message_type=kind, notes=GhostNotes("message"))
    status, h = raises(ctx, c, c.canonical_name, message)
    ctx.prove(status == "ok", "making it never raises", info=lambda: repr(h))
    if status != "ok":
        return
    h.value = None  # contract of pre_check
    status, got = raises(ctx, c.finish, h, add_note_fn())
    ctx.prove(status == "ok", "finishing it never raises", info=lambda: f"{c.__name__}: {got!r}")
    ctx.cover("finished")
    ctx.prove(not h.value, "it has no value", info=lambda: f"{c.__name__}: {h.value!r}")
    if status == "ok" and h.value is not None:
        status, got = raises(ctx, c.post_check, h, add_note_fn())
        ctx.prove(status == "ok", "its final check never raises", info=lambda: f"{c.__name__}: {got!r}")
    ctx.prove(not notes(), "and no note about it", info=lambda: f"{c.__name__}: {[r.name for r in notes()]}")


def contracts():
    f = "httplint.field.HttpField."
    out = [Contract(f"gate {i + 1}/3", gate((i, 3)), functions=[f + "pre_check", f + "__init__"],
                    covers=["misplaced", "misnamed", "accepted"]) for i in range(3)]
    out.append(Contract("unread", unread, functions=[f + "finish"], covers=["finished"]))
    return out + p11.contracts()
