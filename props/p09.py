"""P09: content codings (httplint/content_encoding.py)."""
import zlib
import brotli
import z3
import pyvc.core as core
from pyvc.containers import LazyDict, Maker, PDict, PList, SList
from .message_state import Hash, md5_stubs
from pyvc.core import S, SBytes, SStr, Unsupported, is_sym, new_bool, new_bytes, new_int, new_str, s_and, s_iff, s_not, tb
from pyvc.ghost import NS, GhostNotes, conc, notes
from pyvc.runtime import LoopSpec, register, same
from pyvc import runtime
from pyvc.verify import Contract, expect_ok, raises
import httplint.content_encoding as M
from spec import gzip as SP

Q = "httplint.content_encoding."


def view_bytes(m, v):
    n = m.eval(v.b - v.a, model_completion=True).as_long()
    return [m.eval(v.f(v.a + i), model_completion=True).as_long() % 256 for i in range(min(n, 4000))]


def header(ctx):
    """the gzip header parser against the definition of the format"""
    data = core.SView("data")
    ctx.find_chars = ("\0",)
    ctx.witness = lambda m: {"content": view_bytes(m, data)}
    first = {}

    def while_spec(lid, loc):
        def inv(v):
            ints = {n: x for n, x in v.items() if isinstance(x, int) and not isinstance(x, bool)}
            if lid not in first or not is_sym(v.k) and v.k == 0:
                first[lid] = ints
            return [("no zero byte has been passed over", s_and(*[
                s_and(ints[n] >= x, data.find(b"\0", ints[n]) == data.find(b"\0", x)) for n, x in first[lid].items() if n in ints]))]

        return LoopSpec(inv, soft=True)

    ctx.loop_specs = {"while*": while_spec}
    st, got = raises(ctx, M.GzipProcessor._read_gzip_header, data)
    want, off = SP.header(data)
    ctx.cover(want)
    if st == "ok":
        ctx.prove(want == "ok", "accepted only if a whole gzip header is there")
        if want == "ok":
            ctx.prove(same(got, data[off:]), "what follows the header is returned")
    elif isinstance(got, IndexError):
        ctx.prove(want == "more", "more input is asked for only if the header is not complete", info=lambda: f"{want}")
    elif isinstance(got, OSError):
        ctx.prove(want == "bad", "rejected only if it is no gzip header", info=lambda: f"{want}")
    else:
        ctx.prove(False, f"no other exception: {type(got).__name__}: {got}")



# ------------------------------------------------------------------------------------------
MAX = M.MAX_DECOMPRESSED_BYTES
N = z3.Function("decoded_bytes_of_a_prefix", z3.IntSort(), z3.IntSort())  # how much the first n input bytes decode to


class Sink:
    """what comes after a processor: must be given the decoded bytes in order, once"""

    def __init__(self, at):
        self.pos = at
        self.calls = 0

    def __call__(self, chunk):
        c = core.ctx()
        ok = type(chunk) is core.SView and chunk.name == "out"
        c.prove(ok and s_and(core.mkbool(chunk.a == core.z3val(self.pos))), "exactly the decoded bytes are passed on, in order and once",
                info=lambda: f"{chunk}")
        c.prove(core.mknum(chunk.b) <= MAX, "no more decoded bytes than the limit are passed on")
        runtime.setattr(self, "pos", core.mknum(chunk.b))


class Decompressor:
    """ghost decompression stream.  Its input is in[start:given); `tail` is where the unconsumed part of
    it starts; out[0:pos) has been produced.  Assumed of zlib (and, without a bound, of brotli): each
    call gives the next bytes of what its input decodes to, at most `max` of them, and all there are if
    nothing is left unconsumed and fewer than `max` are given; an invalid stream raises the library's
    error."""

    def __init__(self, error, start, given, pos, bounded):
        self.error, self.bounded = error, bounded
        self.start, self.given, self.tail, self.pos = start, given, given, pos
        self.last = None  # length of the last output, and whether it was cut off by the limit
        self.cut = False
        self.failed = False
        self.limit = None

    def accept(self, data):
        c = core.ctx()
        if type(data) is not core.SView or data.name != "in":
            c.prove(type(data) is bytes and data == b"", "only message bytes are decompressed", info=lambda: f"{data}")
            return
        c.prove(core.mkbool(z3.Or(data.a == data.b, data.a == core.z3val(self.tail))),
                "input is given to the decompressor in order and once", info=lambda: f"{data.a} {self.tail}")
        c.prove(core.mkbool(z3.Or(data.b >= core.z3val(self.given), data.a == data.b)), "no unconsumed input is dropped")
        if c.decide(data.a == data.b):
            c.prove(core.mkbool(core.z3val(self.tail) == core.z3val(self.given)), "no unconsumed input is dropped")
            return
        runtime.setattr(self, "given", core.mknum(data.b))

    def produce(self, limit):
        c = core.ctx()
        if bool(new_bool("stream_error")):
            runtime.setattr(self, "failed", True)
            raise self.error("ghost")
        k = core.SInt(c.fresh("produced", z3.IntSort()))
        new, g = self.pos + k, core.z3val(self.given)
        c.assume(z3.And(k.e >= 0, core.z3val(new) <= N(g)))
        t = core.SInt(c.fresh("tail", z3.IntSort()))
        c.assume(z3.And(t.e >= core.z3val(self.tail), t.e <= g))
        if limit is None:
            c.assume(z3.And(t.e == g, core.z3val(new) == N(g)))
            cut = False
        else:
            m = core.z3val(limit)
            self.limit = limit
            c.assume(k.e <= m)
            c.assume(z3.Implies(z3.And(t.e == g, k.e < m), core.z3val(new) == N(g)))
            c.assume(z3.Implies(k.e == 0, z3.And(t.e == g, core.z3val(new) == N(g))))
            cut = core.mkbool(k.e == m)
        old = self.pos
        for n, v in (("tail", t), ("pos", new), ("cut", cut), ("last", k)):
            runtime.setattr(self, n, v)
        return core.SView("out", core.z3val(old), z3.simplify(core.z3val(new)))

    # zlib
    @property
    def unconsumed_tail(self):
        return core.SView("in", core.z3val(self.tail), core.z3val(self.given))

    def decompress(self, data, max_length=0):
        self.accept(data)
        return self.produce(None if not is_sym(max_length) and max_length == 0 else max_length)

    # brotli
    def process(self, data):
        self.accept(data)
        return self.produce(None)


def processor(ctx, cls, kind):
    """a processor made by its own constructor, its library object replaced by the ghost"""
    made = []

    def new_zlib(*a, **k):
        ctx.prove(a == (-zlib.MAX_WBITS,) and not k, "a raw deflate stream of any window size is decoded")
        made.append(Decompressor(zlib.error, None, 0, 0, True))
        return register(made[-1], "decompressor")

    def new_brotli(*a, **k):
        ctx.prove(not a and not k, "a brotli stream is decoded")
        made.append(Decompressor(brotli.error, 0, 0, 0, False))
        return register(made[-1], "decompressor")

    ctx.stubs = dict(ctx.stubs, **{"zlib.decompressobj": new_zlib, "brotli.Decompressor": new_brotli,
                                   "httplint.util.f_num": lambda *a: "n", "httplint.util.display_bytes": lambda *a: "hex"})
    message = NS(notes=GhostNotes(), content_length=new_int("content_length", 0))
    sink = register(Sink(0), "sink")
    proc = expect_ok(ctx, "construction", runtime.call, cls, message, sink)
    if len(made) != 1:
        raise Unsupported("the processor does not make one decompressor")
    ctx.prove(proc.ok is True and proc._decompressed == 0, "a new processor is usable and has decoded nothing")
    return proc, made[0], sink


def decoder(cls, kind):
    def body(ctx):
        proc, g, sink = processor(ctx, cls, kind)
        limit_note, bad = "DECOMPRESSION_LIMIT", {"gzip": "BAD_ZLIB", "br": "BAD_BROTLI"}[kind]
        received = new_int("received", 0)
        size = new_int("chunk_size", 0)
        chunk = core.SView("in", received.e, z3.simplify(received.e + size.e))
        end = core.mknum(chunk.b)
        ctx.witness = lambda m: {"kind": kind}
        # any state that satisfies the invariant
        usable = bool(new_bool("usable"))
        proc.ok = usable
        streaming = True
        if kind == "gzip":
            ctx.prove(proc._in_gzip is False and proc._gzip_header_buffer == b"", "a new gzip processor expects a header")
            streaming = bool(new_bool("streaming"))
            proc._in_gzip = streaming
            if not streaming:
                proc._gzip_header_buffer = core.SView("in", z3.IntVal(0), received.e)
        if streaming:
            done = new_int("decoded_so_far", 0)
            if usable:
                ctx.assume(tb(done <= MAX))
                ctx.assume(done.e == N(received.e))
            else:
                ctx.assume(tb(sink_at := done >= 0))
            proc._decompressed = done
            g.start, g.given, g.tail, g.pos = 0, received, received, done
            sink.pos = done
        before = dict(vars(proc))
        at = sink.pos
        hdr = {}

        def read_header(content):
            ctx.prove(type(content) is core.SView and content.name == "in" and core.mkbool(
                z3.And(content.a == 0, content.b == chunk.b)), "the header is looked for in all bytes received so far")
            hdr["st"] = ["more", "bad", "ok"][ctx.choose(3, "header")]
            if hdr["st"] == "more":
                raise IndexError("ghost")
            if hdr["st"] == "bad":
                raise OSError("ghost")
            off = new_int("header_length", 10)
            ctx.assume(tb(off <= end))
            g.start, g.tail, g.given = off, off, off
            ctx.assume(z3.Implies(off.e == chunk.b, N(chunk.b) == 0))  # no payload decodes to nothing
            hdr["off"] = off
            return core.SView("in", off.e, chunk.b)

        ctx.stubs = dict(ctx.stubs, **{Q + "GzipProcessor._read_gzip_header": read_header})

        def while_spec(lid, loc):
            st = {}

            def inv(v):
                if not is_sym(v.k) and v.k == 0:
                    st["last"] = [n for n, x in v.items() if type(x) is core.SView and x.name == "out"]
                out = [("all input has been given to the decompressor", core.mkbool(core.z3val(g.given) == chunk.b)),
                       ("all output so far has been passed on", same(sink.pos, g.pos)),
                       ("the count of decoded bytes is right", same(proc._decompressed, g.pos)),
                       ("the limit has not been passed", g.pos <= MAX),
                       ("the decompressor has not failed", not g.failed if isinstance(g.failed, bool) else s_not(g.failed)),
                       ("unconsumed input is a part of the input", s_and(g.tail <= g.given, g.tail >= 0)),
                       ("positions are sound", s_and(g.pos >= 0, core.mkbool(core.z3val(g.pos) <= N(chunk.b)))),
                       ("output is complete unless input is left or the last call was cut off",
                        core.s_or(core.mkbool(core.z3val(g.pos) == N(chunk.b)), g.tail < g.given, g.cut))]
                for n in st.get("last", ()):
                    out.append((f"{n} is the last output", s_and(
                        core.mkbool(v[n].b - v[n].a == core.z3val(g.last)))))
                out.append(("a cut off call gave a full output", core.s_or(s_not(g.cut), g.last == g.limit)))
                return out

            return LoopSpec(inv, soft=True)

        ctx.loop_specs = {"while*": while_spec}
        expect_ok(ctx, "decoding", proc, chunk)
        names = [r.name for r in notes()]
        ctx.prove(all(r.subject == "field-content-encoding" for r in notes()), "notes are about Content-Encoding")
        if not usable:
            ctx.cover("stopped")
            ctx.prove(names == [] and same(sink.pos, at) and all(v is before[n] for n, v in vars(proc).items()) and
                      proc.ok is False, "after a failure nothing is decoded, passed on or reported")
            return
        st = hdr.get("st", "ok")
        ctx.prove(s_and(core.mknum(core.z3val(sink.pos)) <= MAX), "the limit holds for what was passed on")
        if st != "ok":
            ctx.cover(st)
            ctx.prove(names == (["BAD_GZIP"] if st == "bad" else []), "an invalid header gives one note, an incomplete one none",
                      info=lambda: f"{names}")
            ctx.prove(proc.ok is (st == "more") and same(sink.pos, at), "an invalid header stops decoding; nothing is passed on")
            if st == "more":
                b = proc._gzip_header_buffer
                ctx.prove(proc._in_gzip is False and type(b) is core.SView and b.name == "in" and core.mkbool(
                    z3.And(b.a == 0, b.b == chunk.b)), "an incomplete header is kept whole for the next chunk")
            return
        failed = g.failed if isinstance(g.failed, bool) else bool(g.failed)
        if failed:
            ctx.cover("error")
            ctx.prove(names == [bad] and proc.ok is False, "a corrupt stream gives exactly one note and stops decoding",
                      info=lambda: f"{names} {proc.ok}")
            return
        if bool(core.mkbool(core.z3val(g.pos) > MAX)):
            ctx.cover("limit")
            ctx.prove(names == [limit_note] and proc.ok is False, "exceeding the limit gives exactly one note and stops decoding",
                      info=lambda: f"{names} {proc.ok}")
            return
        ctx.cover("decoded")
        ctx.prove(names == [] and proc.ok is True, "valid input within the limit gives no note and decoding goes on",
                  info=lambda: f"{names} {proc.ok}")
        # the invariant again
        ctx.prove(core.mkbool(core.z3val(sink.pos) == N(chunk.b)), "everything the input so far decodes to has been passed on")
        ctx.prove(same(proc._decompressed, sink.pos), "the count of decoded bytes is right")
        ctx.prove(s_and(same(g.given, end), core.mkbool(core.z3val(g.tail) == chunk.b)), "no input is left over")
        if kind == "gzip":
            ctx.prove(proc._in_gzip is True and proc._gzip_header_buffer == b"", "the header is done with")

    return body


# ------------------------------------------------------------------------------------------
class Codings(PList):
    """the parsed Content-Encoding: any number of names"""

    def __init__(self):
        list.__init__(self)
        self.sym = SList("codings", maker=Maker("codings", {"str"}))


def coded(present=True):
    p = LazyDict("parsed", lambda k: Codings())
    return p


def content(ctx):
    """a ContentEncodingProcessor before any content, made by its own constructor"""
    ctx.stubs = dict(ctx.stubs, **md5_stubs(ctx))
    message = NSW(headers=NS(parsed=coded()), notes=GhostNotes(), content_length=0)
    return message, expect_ok(ctx, "construction", runtime.call, M.ContentEncodingProcessor, message)


class NSW(NS):
    """can be referred to weakly"""


def pipeline(ctx):
    """the processors are put together in the order of the codings"""
    made = []

    class Made:
        def __init__(self, kind, message, nxt):
            self.kind, self.message, self.nxt = kind, message, nxt
            made.append(self)

        def __call__(self, chunk):
            raise Unsupported("a processor is run while the pipeline is made")

    message, cep = content(ctx)
    ctx.stubs = dict(ctx.stubs, **{Q + "GzipProcessor": lambda m, n: Made("gzip", m, n),
                                   Q + "BrotliProcessor": lambda m, n: Made("br", m, n)})
    hole = NS(name="what was built so far")
    st = {}

    def spec(lid, seq, loc):
        def inv(v):
            if v.k is None or is_sym(v.k) or v.k != 0:
                return []
            st["sink"] = cep.pipeline
            codings = message.headers.parsed["content-encoding"] if bool(message.headers.parsed.has("content-encoding")) else []
            n = codings.slen() if isinstance(codings, PList) else 0
            j = new_int("any_position", 0)
            ctx.assume(tb(j < v.seq.slen()))
            out = [("every coding is looked at", v.seq.slen() == n)]
            if isinstance(codings, PList):
                out.append(("in the order applied", v.seq.elem(j.e) == codings.sym.elem(j.e)))
            return out

        def frame(v):
            return [(cep, "pipeline", lambda: setattr(cep, "pipeline", hole))]

        def begin(v):
            del made[:]

        def end(v):
            kind = coding_kind(v.elem)
            ctx.cover(str(kind))
            if kind is None:
                ctx.prove(not made and cep.pipeline is hole, "an unknown coding is skipped")
            else:
                ctx.prove(len(made) == 1 and made[0].kind == kind and made[0].nxt is hole and cep.pipeline is made[0],
                          "a coding's processor passes on to those of the codings applied before it")

        return LoopSpec(inv, frame=frame, begin=begin, end=end)

    ctx.loop_specs = {"*": spec}
    expect_ok(ctx, "_build_pipeline", cep._build_pipeline)
    if "sink" in st:
        ctx.prove(cep.pipeline is hole, "the pipeline built is the one used")
        cep.pipeline = st["sink"]
    ctx.cover("built")
    data = new_bytes("decoded")
    length, hashed = cep.length, cep._hash_processor.data
    expect_ok(ctx, "the end of the pipeline", cep.pipeline, data)
    ctx.prove(cep.length == length + data.slen(), "decoded bytes are counted, once")
    ctx.prove(cep._hash_processor.data == hashed + data, "decoded bytes are hashed, once and in order")
    ctx.prove(not notes(), "no notes")


def coding_kind(name):
    if bool(core.s_or(name == "gzip", name == "x-gzip")):
        return "gzip"
    if bool(name == "br"):
        return "br"
    return None


def feed(ctx):
    """chunks reach the pipeline, which is built once"""
    message, cep = content(ctx)
    built = []

    class Pipe:
        def __init__(self):
            self.got = []

        def __call__(self, chunk):
            self.got.append(chunk)

    def build(self):
        built.append(self)
        self.pipeline = Pipe()

    ctx.stubs = dict(ctx.stubs, **{Q + "ContentEncodingProcessor._build_pipeline": build})
    ctx.prove(cep.decode_ok is True and cep.pipeline is None and cep.length == 0 and cep.hash is None, "nothing is decoded yet")
    a, b = new_bytes("chunk"), new_bytes("next_chunk")
    expect_ok(ctx, "feed_content", cep.feed_content, a)
    ctx.prove(len(built) == 1 and cep.pipeline.got == [a], "the first chunk goes into a new pipeline")
    pipe = cep.pipeline
    expect_ok(ctx, "feed_content", cep.feed_content, b)
    ctx.prove(len(built) == 1 and cep.pipeline is pipe and len(pipe.got) == 2 and pipe.got[1] is b, "later chunks go into the same pipeline")
    expect_ok(ctx, "finish_content", cep.finish_content)
    ctx.prove(same(cep.hash, cep._hash_processor.digest()), "the hash is that of the decoded bytes")


def contracts():
    both = ["decoded", "error", "limit", "stopped"]
    return [
        Contract("header", header, covers=["ok", "more", "bad"], functions=[Q + "GzipProcessor._read_gzip_header"]),
        Contract("gzip", decoder(M.GzipProcessor, "gzip"), covers=both + ["more", "bad"],
                 functions=[Q + "GzipProcessor.__call__", Q + "GzipProcessor.__init__"]),
        Contract("brotli", decoder(M.BrotliProcessor, "br"), covers=both,
                 functions=[Q + "BrotliProcessor.__call__", Q + "BrotliProcessor.__init__"]),
        Contract("pipeline", pipeline, covers=["gzip", "br", "None", "built"], functions=[
            Q + "ContentEncodingProcessor._build_pipeline", Q + "ContentEncodingProcessor._sink_process",
            Q + "ContentEncodingProcessor.__init__"]),
        Contract("feed", feed, functions=[Q + "ContentEncodingProcessor.feed_content",
                                          Q + "ContentEncodingProcessor.finish_content"]),
    ]
