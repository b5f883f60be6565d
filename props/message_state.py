"""An arbitrary message linter at any point of its life (httplint/message.py)."""
import z3
from pyvc.core import SBytes, SInt, SStr, S, Opaque, is_sym, new_bool, new_bytes, new_int, new_str, mknum
from pyvc.containers import LazyDict, PDict, PList, SList
from pyvc.ghost import NS, GhostNotes, conc, optional
import pyvc.core as core
import httplint.message as M

CHECKERS = ["httplint.field.cors.check_preflight_request", "httplint.field.cors.check_preflight_response",
            "httplint.cache.ResponseCacheChecker", "httplint.status.StatusChecker",
            "httplint.content_type.verify_content_type", "httplint.charset.verify_charset"]


class PostChecked:
    def __init__(self, section, handler, add_note):
        self.section, self.handler, self.add_note = section, handler, add_note


class _Handlers:
    shapes = {("opaque",)}

    def __init__(self, name, section):
        self.name, self.section = name, section

    def __call__(self, i):
        h = NS(canonical_name=SStr(z3.Function(self.name + "_name", z3.IntSort(), S)(i)))
        h.value = core.SOpt(z3.Function(self.name + "_none", z3.IntSort(), z3.BoolSort())(i), Opaque("value"))
        h.post_check = lambda add_note: core.ctx().trace.append(PostChecked(self.section, h, add_note))
        return h


class Handlers:
    """the handlers of a section: any number, of any kind"""

    def __init__(self, name, section):
        self.l = PList()
        self.l.sym = SList(name, maker=_Handlers(name, section))

    def values(self):
        return self.l


class Section:
    def __init__(self, name, is_trailer):
        self.is_trailer = is_trailer
        self.handlers = Handlers(name, self)
        self.processed = []
        self.parsed = LazyDict(name, lambda k: optional(f"{name}[{k}]", new_int(f"{name}[{k}].value", 0)))

    def process(self, fields):
        self.processed.append(fields)


class Hash:
    """a running MD5: `data` is what has been hashed so far"""

    def __init__(self, name):
        self.data = new_bytes(name)
        self.updates = []

    def update(self, chunk):
        self.updates.append(chunk)
        self.data = self.data + chunk

    def digest(self):
        return SBytes(z3.Function("md5", S, S)(core.z3val(self.data)))


def md5_stubs(ctx, made=None):
    """hashlib replaced by the ghost"""
    def new(name, *a, **k):
        ctx.prove(name == "md5", "the hash is an MD5")
        return md5(*a, **k)

    def md5(data=b"", **k):
        h = Hash("hashed")
        h.data = core.SBytes(core.z3val(data)) if not is_sym(data) else data
        if made is not None:
            made.append(h)
        return h

    return {"hashlib.__hash_new": new, "hashlib.new": new, "_hashlib.new": new, "_hashlib.openssl_md5": md5}


class Decoder:
    """stands for the decoding pipeline: records what it is given"""

    def __init__(self):
        self.fed, self.finished = [], 0
        self.length, self.decode_ok, self.processors = new_int("decoded.length", 0), new_bool("decode_ok"), []
        self.hash = new_bytes("decoded.hash")

    def feed_content(self, chunk):
        self.fed.append(chunk)

    def finish_content(self):
        self.finished += 1


def linter(cls):
    lint = cls.__new__(cls)
    lint.__dict__.update(
        notes=GhostNotes(), no_content=new_bool("no_content"), content_length=new_int("received", 0),
        content_hash=None, complete=False, _hash_processor=Hash("hashed"), decoded=Decoder(),
        headers=Section("headers", False), trailers=Section("trailers", True), content_sample=new_bytes("sample"),
        _related=None, base_uri=new_str("base_uri"), method=None, status_code=None, is_head_response=False)
    if cls is M.HttpRequestLinter:
        lint.method = optional("method", new_str("method"))
    else:
        lint.status_code = optional("status", new_int("status"))
        lint.is_head_response = new_bool("head")
    return lint


def witness(lint):
    def w(m):
        return {"kind": "response" if type(lint) is M.HttpResponseLinter else "request",
                "no_content": conc(m, lint.no_content), "received": conc(m, lint.content_length),
                "has_cl": conc(m, lint.headers.parsed.has("content-length")),
                "declared": conc(m, lint.headers.parsed.value("content-length")),
                "has_ua": conc(m, lint.headers.parsed.has("user-agent")), "method": conc(m, lint.method),
                "status": conc(m, lint.status_code), "head": conc(m, lint.is_head_response)}

    return w
