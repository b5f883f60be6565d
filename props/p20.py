"""P20: Range, Content-Range, Age and Content-Length are read strictly."""
from pyvc.verify import Contract, raises
from pyvc.ghost import NS, notes, add_note_fn, conc, Rec, optional
from pyvc.core import new_int, new_str, new_bool, is_sym, s_and, PathEnd, Unsupported
from pyvc.containers import PList, SList
from pyvc.runtime import LoopSpec, same
from httplint.field.parsers.range import range as range_field
from httplint.field.parsers.content_range import content_range
from httplint.field.parsers.age import age
from httplint.field.parsers.content_length import content_length
from spec import ranges as SP

Q = "httplint.field.parsers."


def handler(cls, **k):
    h = cls.__new__(cls)
    h.__dict__.update(k)
    return h


def run(ctx, h, s, field, **wit):
    ctx.witness = lambda m: dict({"field": field, "value": conc(m, s)}, **{k: conc(m, v) for k, v in wit.items()})
    st, got = raises(ctx, h.parse, s, add_note_fn())
    if st == "raise" and not isinstance(got, ValueError):
        ctx.prove(False, f"parse raises only ValueError, not {type(got).__name__}", info=str(got))
    return st == "ok", got


def integers(cls, spec, field):
    def body(ctx):
        s = new_str("value")
        ok, got = run(ctx, handler(cls, message=NS(message_type="response")), s, field)
        want, names = spec(s)
        ctx.cover(names[0] if names else "plain")
        ctx.prove(sorted(r.name for r in notes()) == sorted(names), "exactly the specified notes",
                  info=lambda: f"got {notes()}, expected {names}")
        ctx.prove(ok == (want is not None), "a value is rejected exactly when it is not an allowed integer")
        if want is not None and ok:
            ctx.prove(got == want, "the value is the integer written")

    return body


def cr_parse(ctx):
    s = new_str("value")
    resp = bool(new_bool("is_response"))
    status = optional("status", new_int("status", 100, 999))
    h = handler(content_range, message=NS(message_type="response" if resp else "request", status_code=status))
    ok, got = run(ctx, h, s, "Content-Range", status=status)
    want, names = SP.content_range(s, resp, status)
    for n in names:
        ctx.cover(n)
    if want is not None and not names:
        ctx.cover("plain")
    ctx.prove(sorted(r.name for r in notes()) == sorted(names), "exactly the specified notes",
              info=lambda: f"got {notes()}, expected {names}")
    ctx.prove(ok == (want is not None), "a value is rejected exactly when a part is missing or no integer")
    if want is not None and ok:
        for what, a, b in zip(("unit", "first_byte_pos", "last_byte_pos", "complete_length"),
                              [getattr(got, x) for x in ("unit", "first_byte_pos", "last_byte_pos", "complete_length")],
                              want):
            ctx.prove(same(a, b), f"{what} is the one written")


def range_parse(ctx):
    s = new_str("value")
    h = handler(range_field, message=NS(message_type="request"))
    unit, eq, rest = s.partition("=")
    rest_ok = bool(eq) and bool(unit)
    state = {}

    def one(elem):
        return SP.one_range(elem.strip())

    def end(v):
        r = one(v.elem)
        ctx.prove(r != ("bad",), "a malformed range is never accepted")
        want = ["RANGE_INVALID"] if r != ("bad",) and SP.inverted(r) else []
        ctx.cover("inverted" if want else "plain")
        ctx.prove([n.name for n in v.trace if isinstance(n, Rec)] == want,
                  "a range is noted as invalid exactly when its first position exceeds its last")

    def spec(lid, seq, loc):
        if "elem" in state or not rest_ok:
            return None

        def begin(v):
            state["elem"] = v.elem
            state["n"] = len(ctx.trace)

        return LoopSpec(lambda v: [], begin=begin, end=end, collect=lambda e: [one(e)])

    ctx.loop_specs = {"*": spec}
    ok, got = run(ctx, h, s, "Range")
    bad = "elem" in state and one(state["elem"]) == ("bad",)
    if not rest_ok or bad:
        ctx.cover("bad")
        ctx.prove(not ok, "a malformed value is rejected")
        tr = [r.name for r in notes()]
        ctx.prove(tr == ["RANGE_BAD_SYNTAX"], "it gets exactly one bad-syntax note", info=lambda: str(tr))
        return
    if "elem" in state:  # the loop's iteration ended by an exception or return on a well-formed range
        ctx.prove(False, "parsing goes on after a well-formed range")
    ctx.prove(ok, "a value whose ranges are all well-formed is accepted")
    if not ok:
        return
    ctx.prove(got.unit == unit, "the unit is the one written")
    ctx.prove(not notes(), "no note outside the loop")
    c = getattr(got.ranges, "collected", None)
    if c is None:
        raise Unsupported("the ranges are not collected by a loop")
    ctx.cover("accepted")
    # the loop runs over all of the comma-separated pieces after the equals sign
    want = rest.split(",")
    a, b = c, want.as_slist() if isinstance(want, PList) else want
    ctx.prove(a is b or a.name == b.name, "every comma-separated range is read, in order",
              info=lambda: f"{a.name} / {b.name}")


def contracts():
    return [
        Contract("age", integers(age, SP.age, "Age"), functions=[Q + "age.age.parse"],
                 covers=["AGE_NOT_INT", "AGE_NEGATIVE", "AGE_LARGE", "plain"]),
        Contract("content_length", integers(content_length, SP.content_length, "Content-Length"),
                 functions=[Q + "content_length.content_length.parse"],
                 covers=["CL_BAD_SYNTAX", "CL_TOO_LARGE", "plain"]),
        Contract("content_range", cr_parse, functions=[Q + "content_range.content_range.parse"],
                 covers=["plain"] + sorted(SP.CR_NOTES - {"RANGE_INVALID"}) + ["RANGE_INVALID"]),
        Contract("range", range_parse, functions=[Q + "range.range.parse"],
                 covers=["bad", "accepted", "inverted", "plain"]),
    ]
