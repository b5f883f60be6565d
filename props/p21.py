"""P21: the character set of the content (httplint/charset.py)."""
import codecs
import z3
import chardet
from pyvc import core
from pyvc.containers import LazyDict
from pyvc.core import S, SReal, SStr, SBytes, is_sym, mkbool, new_bool, new_bytes, new_int, new_str, z3val, Unsupported
from pyvc.ghost import NS, GhostNotes, conc, notes, optional
from pyvc.runtime import same
from pyvc.verify import Contract, raises
import httplint.charset as CS

ALL = {"CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH", "CHARSET_UNDECODABLE"}
JSON = ("application/json", "text/json")


def qual(f):
    return f"{f.__module__}.{f.__qualname__}"


def boolf(name, *args):
    return mkbool(z3.Function(name, *[S] * len(args), z3.BoolSort())(*[z3val(a) for a in args]))


def codec_stubs(ctx):
    """what is assumed of codecs and chardet: results are functions of their arguments"""
    def lookup(name):
        if name is None:
            raise TypeError("lookup() argument must be str, not None")
        if not is_sym(name):
            return codecs.lookup(name)
        if not bool(boolf("known_codec", name)):
            raise LookupError("unknown encoding")
        out = z3.Function("canonical", S, S)(z3val(name))
        ctx.assume(out != z3.StringVal(""))
        return NS(name=SStr(out))

    class Decoder:
        def __init__(self, name, errors):
            ctx.prove(errors == "strict", "the decoder is strict")
            self.name, self.pending = name, b""

        def decode(self, data, final=False):
            if final is not False:
                raise Unsupported("final")
            if not bool(boolf("starts_decodable", self.name, data)):
                raise UnicodeDecodeError("symbolic", b"", 0, 0, "symbolic")
            self.pending = pending(self.name, data)
            return SStr(z3.Function("decoded_start", S, S, S)(z3val(self.name), data.e))

        def getstate(self):
            return (self.pending, 0)

    def incremental(name):
        return lambda errors="strict": Decoder(name, errors)

    def detect(data, *a, **k):
        e = core.SOpt(z3.Function("detects_nothing", S, z3.BoolSort())(data.e), SStr(z3.Function("detected", S, S)(data.e)))
        c = core.SOpt(z3.Function("no_confidence", S, z3.BoolSort())(data.e), SReal(z3.Function("confidence", S, z3.RealSort())(data.e)))
        return {"encoding": e, "confidence": c, "language": None}

    ctx.stubs = dict(ctx.stubs, **{qual(codecs.lookup): lookup, qual(codecs.getincrementaldecoder): incremental,
                                   qual(chardet.detect): detect})
    return lookup, detect


def pending(name, data):
    """the bytes at the end that belong to a character that is cut off"""
    t = z3.Function("pending", S, S, S)(z3val(name), data.e)
    core.ctx().assume(z3.SuffixOf(t, data.e))
    core.ctx().assume(z3.Length(t) <= z3.Length(data.e))
    return SBytes(t)


def decodes(data, enc):
    """the text, or None; LookupError for what is no character encoding"""
    try:
        return data.decode(enc)
    except UnicodeError:
        return None


def expected(ctx, lint, ctype, charset, lookup, detect):
    """the note that is due (with what it says), or None"""
    dec = lambda c: ctx.decide(c.e if is_sym(c) else z3.BoolVal(bool(c)))  # noqa: E731
    sample = lint.content_sample
    if lint.status is not None:
        if lint.status in (204, 205, 206, 304) or dec(core.s_and(lint.status_code >= 100, lint.status_code <= 199)):
            return "status"
    if dec(lint.is_head_response):
        return "head"
    if not lint.has_type:
        return "no type"
    json = any(dec(ctype == j) for j in JSON) or dec(ctype.split("/", 1)[-1].endswith("+json"))
    if json:
        enc = "utf-8"
    elif dec(ctype.startswith("text/")) and charset is not None and dec(charset != ""):
        enc = charset
    else:
        return "no encoding"
    try:
        mine = lookup(enc).name
    except LookupError:
        return "unknown"
    if not dec(mkbool(sample.e != z3.StringVal(""))) or not dec(sample.strip() != b"") or dec(sample.isascii()):
        return "plain"
    try:
        text = decodes(sample, enc)
    except LookupError:
        return "unknown"
    if text is None:
        if dec(lint.decoded.length > sample.slen()) and dec(boolf("starts_decodable", enc, sample)):
            sample = sample.getitem(slice(None, sample.slen() - pending(enc, sample).slen()))
            text = decodes(sample, enc)
            ctx.assume(z3.BoolVal(text is not None))  # without the bytes that are pending it decodes
        else:
            return ("CHARSET_UNDECODABLE", enc, detect(sample)["encoding"])
    d = detect(sample)
    e, c = d["encoding"], d["confidence"]
    e = e if dec(mkbool(z3.Not(e.none))) else None
    c = c if dec(mkbool(z3.Not(c.none))) else None
    if e is None or c is None:
        return "undetected"
    e, c = e.val, c.val
    if not dec(e != "") or not dec(c >= 0.5):
        return "undetected"
    try:
        other = lookup(e).name
    except LookupError:
        return "undetected"
    if dec(other == mine):
        return "same"
    try:
        there = decodes(sample, other)
    except LookupError:
        there = None
    here = decodes(sample, mine)
    if there is not None and here is not None and dec(here == there):
        return "same"
    return ("CHARSET_IMPLICIT_MISMATCH" if charset is None else "CHARSET_MISMATCH", enc, e)


def verify(ctx, statuses, given, has_type=True):
    """exactly the note that is due, for every content, type, charset and status"""
    lookup, detect = codec_stubs(ctx)
    status = statuses[ctx.choose(len(statuses), "status")]
    code = status
    if status == "any":
        code = new_int("status")
        for n in (204, 205, 206, 304):
            ctx.assume(code.e != n)
    ctype, charset = new_str("type"), new_str("charset")
    params = {} if given == "none" else {"charset": None if given == "valueless" else charset}
    charset = charset if given == "given" else None
    parsed = {"content-type": (ctype, params)} if has_type else {}
    sample = new_bytes("sample")
    lint = NS(content_hash=new_bytes("hash"), content_sample=sample, status_code=code, status=status, has_type=has_type,
              is_head_response=new_bool("is_head_response"), headers=NS(parsed=parsed), notes=GhostNotes("message"),
              decoded=NS(length=new_int("decoded.length", 0)), content_sample_size=8192)
    ctx.assume(lint.decoded.length.e >= z3.Length(sample.e))
    ctx.assume(z3.Length(lint.content_hash.e) == 16)
    # a codec is found by its canonical name as by any other, and decodes the same
    enc = charset if charset is not None else None
    ctx.witness = lambda m: {"status": conc(m, code), "type": conc(m, ctype), "charset": conc(m, charset) if charset is not None else None,
                             "given": given, "has_type": has_type}
    status_, got = raises(ctx, CS.verify_charset, lint)
    ctx.prove(status_ == "ok", "judging the character set never raises", info=lambda: repr(got))
    if status_ != "ok":
        return
    want = expected(ctx, lint, ctype, charset, lookup, detect)
    new = notes()
    ctx.cover(want if isinstance(want, str) else want[0])
    if isinstance(want, str):
        ctx.prove(not new, "no note unless one is due", info=lambda: f"{[r.name for r in new]} although: {want}")
        return
    name, e, d = want
    ctx.prove([r.name for r in new] == [name], "exactly the note that is due", info=lambda: f"{[r.name for r in new]}, expected {name}")
    if len(new) == 1:
        ctx.prove(new[0].subject == "content-type", "it is about Content-Type")
        ctx.prove(same(new[0].vars.get("declared_charset"), e), "it names the effective encoding", info=lambda: str(new[0].vars))


def contracts():
    fs = ["httplint.charset.verify_charset"]
    out = []
    for given, status in (("none", "any"), ("valueless", "any"), ("given", "any"), ("given", None)):
        covers = ["head", "no encoding", "plain", "undetected", "same", "CHARSET_UNDECODABLE",
                  "CHARSET_IMPLICIT_MISMATCH" if given != "given" else "CHARSET_MISMATCH"]
        if given == "given":
            covers.append("unknown")
        if status == "any":
            covers.append("status")
        out.append(Contract(f"charset {given}, {status or 'unknown'} status", lambda ctx, g=given, st=status: verify(ctx, [st], g),
                            functions=fs, covers=covers, secs=400, paths=20000))
    out.append(Contract("no judgement", lambda ctx: verify(ctx, [204, 205, 206, 304], "given"), functions=fs, covers=["status"]))
    out.append(Contract("no type", lambda ctx: verify(ctx, [None, "any"], "none", False), functions=fs, covers=["no type"]))
    return out
