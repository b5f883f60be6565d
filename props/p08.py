"""P08: Content-Length and content presence (httplint/message.py finish_content, can_have_content, post_checks)."""
import pyvc.core as core
from pyvc.core import new_int, new_bytes, new_bool, s_iff, tb, is_sym
from pyvc.ghost import Rec, conc, notes
from pyvc.runtime import Emitted, LoopSpec
from pyvc.verify import Contract, expect_ok
import httplint.message as M
from spec import content as SP
from .message_state import CHECKERS, PostChecked, linter, witness

Q = "httplint.message."


def finish(cls):
    def body(ctx):
        lint = linter(cls)
        ctx.witness = witness(lint)
        resp = cls is M.HttpResponseLinter
        received = lint.content_length
        no_content = bool(lint.no_content)
        trailers = [("name", "value")] if bool(new_bool("has_trailers")) else None

        def emit(e, recs):
            if bool(core.mkbool(e.value.none)):
                return not recs
            return len(recs) == 1 and isinstance(recs[0], PostChecked) and recs[0].handler is e

        ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(emit=emit)}
        expect_ok(ctx, "finish_content", lint.finish_content, new_bool("complete"), trailers)
        has_cl = bool(lint.headers.parsed.has("content-length"))
        want = SP.verdict(resp, no_content, received, has_cl,
                          lint.headers.parsed.value("content-length") if has_cl else None, lint.method,
                          bool(lint.is_head_response), lint.status_code, bool(lint.headers.parsed.has("user-agent")))
        got = [r.name for r in notes()]
        for n in want or ["none"]:
            ctx.cover(n)
        ctx.prove(sorted(got) == sorted(want), "exactly the notes about content and Content-Length that are due",
                  info=lambda: f"got {got}, expected {want}")
        ctx.prove(lint.content_length == received, "the number of bytes received is left alone")
        ctx.prove(lint.decoded.finished == 1, "decoding is finished once")
        ctx.prove(lint.trailers.processed == ([trailers] if trailers else []), "trailers given are processed once")

    return body


def feed(ctx):
    lint = linter(M.HttpResponseLinter if bool(new_bool("is_response")) else M.HttpRequestLinter)
    before = lint.content_length
    chunk = new_bytes("chunk")
    expect_ok(ctx, "feed_content", lint.feed_content, chunk)
    ctx.prove(lint.content_length == before + chunk.slen(), "every byte received is counted, once")


def contracts():
    stubs = {q: (lambda *a, **k: None) for q in CHECKERS}
    req = ["CL_CORRECT", "CL_INCORRECT", "REQUEST_CONTENT_NOT_DEFINED", "MISSING_USER_AGENT", "none"]
    return [
        Contract("request", finish(M.HttpRequestLinter), stubs=stubs, covers=req, functions=[
            Q + "HttpMessageLinter.finish_content", Q + "HttpRequestLinter.post_checks"]),
        Contract("response", finish(M.HttpResponseLinter), stubs=stubs,
                 covers=["CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "none"], functions=[
                     Q + "HttpMessageLinter.finish_content", Q + "HttpResponseLinter.can_have_content",
                     Q + "HttpResponseLinter.post_checks"]),
        Contract("feed_content", feed, functions=[Q + "HttpMessageLinter.feed_content"]),
    ]
