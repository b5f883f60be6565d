"""P17: the notes of StatusChecker, for every status code and every state of response and request."""
import z3
from pyvc.verify import Contract, raises
from pyvc.ghost import NS, notes, conc, optional, GhostNotes, add_note_fn
from pyvc.core import new_int, new_str, new_bool, SStr, S, is_sym, ctx as cur, mkbool, SBool, Unsupported, new_bytes
from pyvc.containers import LazyDict, PList, PSet, SList, Maker
from pyvc.runtime import unopt
import httplint.status as ST
import httplint.message as M
from spec import status as SP

FIELDS = sorted({"expect", "upgrade", "range"} | set(SP.NEGOTIATION) | set(SP.PRECONDITION))


class Allow(PSet):
    """the values of Allow: any set of methods"""

    def __init__(self):
        PSet.__init__(self)
        self.has = z3.Function("allow_has", S, z3.BoolSort())

    def is_symbolic(self):
        return True

    def scontains(self, x):
        x = unopt(x)
        return mkbool(self.has(x.e if is_sym(x) else z3.StringVal(x)))


class Facts:
    def __init__(self, request, method, values, parsed, allow):
        self.request, self.method, self.values, self.parsed, self.allow = request, method, values, parsed, allow

    def req(self, name):
        return bool(self.values(name))

    @property
    def continue_expected(self):
        return bool(self.values("expect").sym.exists(lambda v: v.lower() == "100-continue"))

    def res(self, name):
        return bool(self.parsed.has(name))

    @property
    def method_allowed(self):
        return bool(self.allow.scontains(self.method))


def checker(ctx):
    known = bool(new_bool("request_known"))
    none = bool(new_bool("status_none"))
    code = None if none else new_int("status", 0)
    allow = Allow()
    parsed = LazyDict("res", lambda k: allow if k == "allow" else optional(f"res[{k}]", new_int(f"res[{k}].v")))
    notes_ = GhostNotes("message")
    lists = {}

    def values(name):
        if name not in lists:
            lists[name] = SList(f"req[{name}]", maker=Maker(f"req[{name}]", {"str"}))
        p = PList()
        p.sym = lists[name]
        return p

    text = PList()
    text.sym = SList("request.text", maker=Maker("request.text", {("tuple", "str", "str")}))

    def get_header(tuples, name):
        if tuples is not text:
            raise Unsupported("get_header of something else than the request's fields")
        return values(name)

    method = optional("method", new_str("method"))
    request = NS(method=method, headers=NS(text=text), uri=optional("uri", new_str("uri"))) if known else None
    response = NS(notes=notes_, status_code=code, headers=NS(parsed=parsed))
    ctx.stubs["httplint.status.get_header"] = get_header
    m = None
    if known and not cur().decide(method.none):
        m = method.val
    f = Facts(known, m, values, parsed, allow)

    def wit(mo):
        t = lambda b: bool(conc(mo, b))
        return {"status": conc(mo, code), "request": known, "method": conc(mo, m),
                "req": [n for n in lists if t(lists[n].slen() > 0)],
                "res": [n for n in ("location", "content-range", "date", "allow") + SP.METADATA if t(parsed.has(n))],
                "allowed": m is not None and t(allow.scontains(m))}

    ctx.witness = wit
    st, got = raises(ctx, ST.StatusChecker, response, request)
    ctx.prove(st == "ok", "the status check does not raise", info=lambda: str(got))
    tr = notes()
    want = SP.status_notes(code, f)
    ctx.cover(want[0] if want else "none")
    ctx.prove(sorted(r.name for r in tr) == sorted(want), "exactly the notes the status code calls for",
              info=lambda: f"{tr}, expected {want}")
    for r in tr:
        if r.name == "HEADER_SHOULD_NOT_BE_IN_304":
            text_ = r.vars.get("headers")
            for h in SP.METADATA:
                ctx.prove((h in str(text_)) == f.res(h), f"the note lists {h} exactly when it was sent")


def topline(ctx):
    lint = M.HttpResponseLinter.__new__(M.HttpResponseLinter)
    lint.__dict__.update(notes=GhostNotes("message"), status_code=None, status_code_str=None, status_phrase=None)
    code = new_bytes("status")
    phrase = optional("phrase", new_bytes("phrase"))
    text = code.decode("ascii", "replace")
    ctx.witness = lambda m: {"text": conc(m, code).decode("latin-1")}
    st, got = raises(ctx, lint.process_response_topline, new_bytes("version"), code, phrase)
    ctx.prove(st == "ok", "the start line never raises")
    from spec.ranges import decimal
    want = decimal(text)
    tr = [r.name for r in notes() if r.name != "STATUS_PHRASE_ENCODING"]
    if want is None:
        ctx.cover("bad")
        ctx.prove(lint.status_code is None, "no status code when it is no integer")
        ctx.prove(tr == ["STATUS_CODE_NON_NUMERIC"], "exactly one note that it is no integer", info=lambda: str(tr))
    else:
        ctx.cover("good")
        ctx.prove(lint.status_code == want, "the status code is the integer written")
        ctx.prove(tr == [], "no note for an integer", info=lambda: str(tr))


def contracts():
    return [
        Contract("status_checker", checker, functions=["httplint.status.StatusChecker.__init__"],
                 covers=sorted(SP.NOTES) + ["none"]),
        Contract("topline", topline, functions=["httplint.message.HttpResponseLinter.process_response_topline"],
                 covers=["bad", "good"]),
    ]
