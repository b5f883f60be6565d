"""P07: content accounting (httplint/message.py, httplint/content_encoding.py)."""
import z3
import pyvc.core as core
from pyvc import runtime
from pyvc.core import is_sym, new_bool, new_bytes, new_int, s_and, tb
from pyvc.containers import PList
from pyvc.ghost import NS, GhostNotes, conc, notes
from pyvc.runtime import LoopSpec, register, same
from pyvc.verify import Contract, expect_ok
import httplint.message as M
import httplint.content_encoding as CE
from .message_state import CHECKERS, Decoder, Section, linter, md5_stubs
from . import p09

Q = "httplint.message."
LIMIT = 8192  # the size of the sample that the property speaks of


def some_linter(ctx):
    return linter(M.HttpResponseLinter if bool(new_bool("is_response")) else M.HttpRequestLinter)


def feed(ctx):
    lint = some_linter(ctx)
    length, hashed, sample = lint.content_length, lint._hash_processor.data, lint.content_sample
    chunk = new_bytes("chunk")
    ctx.witness = lambda m: {"sample": 0, "chunk": len(conc(m, chunk)), "no_content": conc(m, lint.no_content)}
    expect_ok(ctx, "feed_content", lint.feed_content, chunk)
    ctx.prove(lint.content_length == length + chunk.slen(), "every byte received is counted, once")
    if bool(lint.no_content):
        ctx.cover("not supplied")
        ctx.prove(lint._hash_processor.updates == [] and lint.decoded.fed == [], "content not supplied is only counted")
    else:
        ctx.cover("supplied")
        ctx.prove(same(lint._hash_processor.data, hashed + chunk), "the hash covers exactly the bytes received, in order")
        ctx.prove(len(lint.decoded.fed) == 1 and same(lint.decoded.fed[0], chunk), "the chunk is handed to the decoder, once")
    ctx.prove(same(lint.content_sample, sample) and not notes(), "nothing else is changed")


def sample(ctx):
    lint = some_linter(ctx)
    # byte strings as views of one array: the sample is its first bytes, the chunk what comes next
    have, more = new_int("sample_so_far", 0), new_int("chunk_size", 0)
    total = new_int("decoded_so_far", 0)
    ctx.assume(z3.And(have.e == z3.If(total.e > LIMIT, z3.IntVal(LIMIT), total.e)))
    lint.content_sample = core.SView("decoded", z3.IntVal(0), have.e)
    chunk = core.SView("decoded", total.e, z3.simplify(total.e + more.e))
    ctx.witness = lambda m: {"sample": conc(m, total), "chunk": conc(m, more)}
    expect_ok(ctx, "the sample", lint._content_sample_processor, chunk)
    got = lint.content_sample
    end = total.e + more.e
    ctx.prove(type(got) is core.SView and got.name == "decoded" and core.mkbool(
        z3.And(got.a == 0, got.b == z3.If(end > LIMIT, z3.IntVal(LIMIT), end))),
        "the sample is the first 8192 bytes of what has been decoded", info=lambda: f"{got}")


def new(cls):
    def body(ctx):
        hashes = []
        ctx.stubs = dict(ctx.stubs, **md5_stubs(ctx, hashes))
        ctx.stubs["httplint.field.section.FieldSection"] = lambda m, is_trailer=False: Section("section", is_trailer)
        ctx.stubs["httplint.i18n.translate"] = lambda m: str(m)
        nc = new_bool("no_content")
        lint = expect_ok(ctx, "construction", runtime.call, cls, no_content=nc)
        ctx.prove(lint.content_length == 0 and lint.content_sample == b"" and lint.decoded.length == 0, "a new message has no content")
        ctx.prove(same(lint.no_content, nc), "content declared as not supplied is remembered")
        ctx.prove(len(hashes) == 2 and lint._hash_processor is not lint.decoded._hash_processor and all(
            same(h.data, b"") for h in hashes), "content and decoded content have a hash each, of nothing yet")
        got = []
        ctx.stubs[Q + "HttpMessageLinter._content_sample_processor"] = lambda self, c: got.append((self, c))
        chunk, nxt = new_bytes("decoded"), new_bytes("decoded_next")
        for x in (chunk, nxt):
            expect_ok(ctx, "decoded bytes", lint.decoded._sink_process, x)
        ctx.prove(len(got) == 2 and all(o is lint for o, _ in got) and got[0][1] is chunk and got[1][1] is nxt,
                  "the sample is given every decoded chunk, once and in order")
        ctx.prove(same(lint.decoded.length, chunk.slen() + nxt.slen()), "decoded bytes are counted")
        ctx.prove(same(lint.decoded._hash_processor.data, chunk + nxt), "decoded bytes are hashed in order")

    return body


def finish(cls):
    def body(ctx):
        lint = linter(cls)
        ctx.witness = lambda m: {"no_content": conc(m, lint.no_content)}
        ran = []
        ctx.stubs = dict(ctx.stubs, **{q: (lambda *a, _q=q, **k: ran.append(_q)) for q in CHECKERS})
        ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(emit=lambda e, recs: True)}
        hashed, length, samp = lint._hash_processor.data, lint.content_length, lint.content_sample
        expect_ok(ctx, "finish_content", lint.finish_content, new_bool("complete"), None)
        ctx.prove(same(lint.content_hash, lint._hash_processor.digest()) and same(lint._hash_processor.data, hashed),
                  "the hash reported is that of the bytes received")
        ctx.prove(lint.decoded.finished == 1 and same(lint.content_length, length) and same(lint.content_sample, samp),
                  "decoding is finished, once, and the accounts are left alone")
        looked = [q for q in ran if "verify_" in q]
        if bool(lint.no_content):
            ctx.cover("not supplied")
            ctx.prove(looked == [], "content that is not supplied is not judged", info=lambda: str(looked))
            names = [r.name for r in notes(partial=True) if hasattr(r, "name")]
            ctx.prove(not set(names) & {"CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED"},
                      "no note about content that is not supplied", info=lambda: str(names))
        else:
            ctx.cover("supplied")
            if cls is M.HttpResponseLinter:
                ctx.prove(sorted(looked) == sorted(q for q in CHECKERS if "verify_" in q), "a response's content is judged, once")

    return body


def contracts():
    shared = [c for c in p09.contracts() if c.name in ("gzip", "brotli", "pipeline", "feed", "header")]
    for c in shared:
        c.name = "decoding: " + c.name
    return [
        Contract("feed_content", feed, covers=["supplied", "not supplied"], functions=[Q + "HttpMessageLinter.feed_content"]),
        Contract("sample", sample, functions=[Q + "HttpMessageLinter._content_sample_processor"]),
        Contract("new request", new(M.HttpRequestLinter), functions=[Q + "HttpMessageLinter.__init__", Q + "HttpRequestLinter.__init__"]),
        Contract("new response", new(M.HttpResponseLinter), functions=[Q + "HttpMessageLinter.__init__", Q + "HttpResponseLinter.__init__"]),
        Contract("finish request", finish(M.HttpRequestLinter), covers=["supplied", "not supplied"],
                 functions=[Q + "HttpMessageLinter.finish_content"]),
        Contract("finish response", finish(M.HttpResponseLinter), covers=["supplied", "not supplied"],
                 functions=[Q + "HttpMessageLinter.finish_content"]),
    ] + shared
