"""P22: request targets."""
import z3
from pyvc import relang
from pyvc.core import new_bool, new_bytes, new_int, new_str, SStr, ctx as cur, z3val, Unsupported
from pyvc.ghost import NS, GhostNotes, conc, notes
from pyvc.models import in_lang
from pyvc.verify import Contract, raises
import httplint.message as M
import httplint.util as U
from spec import grammar as GR
from spec import uri as SP

ASCII = relang.lang("[\x00-\x7f]*\\Z")


def is_ascii(s):
    return cur().decide(in_lang(s, ASCII))


def quote(s, safe="/", *a, **k):
    """trusted: urllib.parse.quote keeps the safe characters and yields ASCII; it fails only on lone surrogates"""
    plain = {chr(c) for c in range(128)} <= set(safe) if isinstance(safe, str) else False
    if bool(new_bool("surrogate")):
        raise UnicodeEncodeError("utf-8", "", 0, 1, "surrogates not allowed")
    r = SStr(z3.Function("quoted", z3.StringSort(), z3.StringSort())(z3val(s)))
    cur().assume(in_lang(r, ASCII))
    if plain:
        cur().assume(z3.Implies(in_lang(s, ASCII), r.e == z3val(s)))
    cur().trace.append(NS(name="quote", arg=s, plain=plain))
    return r


def convert(ctx):
    s = new_str("iri")
    ctx.witness = lambda m: {"text": conc(m, s)}
    ctx.stubs["urllib.parse.quote"] = quote
    ascii_ = is_ascii(s)
    st, got = raises(ctx, U.iri_to_uri, s)
    if ascii_:
        ctx.cover("ascii")
        ctx.prove(st == "ok", "an ASCII target is always converted", info=lambda: str(got))
        if st == "ok":
            ctx.prove(got == s, "an ASCII target is kept unchanged")
        return
    ctx.cover("converted" if st == "ok" else "failed")
    if st == "ok":
        ctx.prove(in_lang(got, ASCII), "the result of a conversion is ASCII")
        q = [x for x in ctx.trace if isinstance(x, NS) and x.name == "quote"]
        ctx.prove(len(q) > 0 and all(x.plain for x in q), "no ASCII character is percent-encoded")
    else:
        ctx.prove(isinstance(got, ValueError), "a target that cannot be converted is rejected with a ValueError",
                  info=lambda: repr(got))


def judge(ctx):
    s = new_str("iri")
    ctx.witness = lambda m: {"text": conc(m, s)}
    lint = M.HttpRequestLinter.__new__(M.HttpRequestLinter)
    lint.__dict__.update(notes=GhostNotes(), iri=None, uri=None)
    state = {}

    def iri_to_uri(x):  # the contract of the function above
        ctx.prove(x == s, "the target itself is converted")
        if is_ascii(x):
            state["uri"] = x
        elif bool(new_bool("fails")):
            raise ValueError("no URI")
        else:
            state["uri"] = new_str("uri")
            ctx.assume(in_lang(state["uri"], ASCII))
        return state["uri"]

    ctx.stubs["httplint.util.iri_to_uri"] = iri_to_uri
    st, got = raises(ctx, lint.set_uri, s)
    ctx.prove(st == "ok", "a target is never refused", info=lambda: repr(got))
    if st != "ok":
        return
    ctx.prove(lint.iri == s, "the target is recorded as received")
    uri = state.get("uri", s)
    ok = cur().decide(in_lang(uri, GR.lang("URI")))
    kept, want = SP.judge(uri, "uri" in state, ok)
    ctx.cover("converted" if "uri" in state else "failed")
    ctx.cover(",".join(want))
    ctx.prove(lint.uri == kept, "the URI is the converted target without its fragment")
    tr = sorted(x.name for x in notes())
    ctx.prove(tr == sorted(want), "exactly the notes for the resulting URI", info=lambda: f"{tr}, expected {want}")


def topline(ctx):
    lint = M.HttpRequestLinter.__new__(M.HttpRequestLinter)
    seen = []
    lint.__dict__.update(notes=GhostNotes())
    lint.__dict__["set_uri"] = seen.append
    iri = new_bytes("iri")
    ctx.witness = lambda m: {"raw": conc(m, iri).decode("latin-1")}
    st, got = raises(ctx, lint.process_request_topline, new_bytes("method"), iri, new_bytes("version"))
    ctx.prove(st == "ok", "a request line is never refused", info=lambda: repr(got))
    ctx.cover("line")
    ctx.prove(len(seen) == 1 and seen[0] == iri.decode("utf-8", "replace"), "the target is read as UTF-8, once")
    ctx.prove(not notes(), "the request line itself gets no note")


def contracts():
    return [
        Contract("convert", convert, functions=["httplint.util.iri_to_uri"], covers=["ascii", "converted", "failed"]),
        Contract("judge", judge, functions=["httplint.message.HttpRequestLinter.set_uri"],
                 covers=["converted", "failed", "", "URI_BAD_SYNTAX", "URI_TOO_LONG", "URI_BAD_SYNTAX,URI_TOO_LONG"]),
        Contract("topline", topline, functions=["httplint.message.HttpRequestLinter.process_request_topline"], covers=["line"]),
    ]
