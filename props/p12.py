"""P12: how the lines of a field are combined (httplint/field/*_field.py)."""
import inspect
import z3
from pyvc import relang
from pyvc.containers import Maker, PList, SList
from pyvc.core import S, SInt, SStr, ctx as cur, is_sym, new_bool, new_int, new_str, s_and, tb, z3val, Unsupported
from pyvc.ghost import NS, GhostNotes, Rec, add_note_fn, conc, notes
import http_sf
from pyvc.models import in_lang, str_join
from pyvc.runtime import LoopSpec, fstr, register, same
from pyvc.verify import Contract, raises
from httplint.field import HttpField
from httplint.field.broken_field import BrokenField
from httplint.field.list_field import HttpListField
from httplint.field.singleton_field import SingletonField
from httplint.field.structured_field import StructuredField
from httplint.field.utils import RE_FLAGS
from props.p23 import field_classes, pattern_of

SYNTAX = {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED"}
KINDS = {HttpListField: ("handle_input", "finish"), SingletonField: ("handle_input", "finish"),
         BrokenField: ("handle_input", "finish"), StructuredField: ("handle_input", "finish")}


def of_kind(kind):
    """the field classes of a kind; each has to use the kind's own methods for these contracts to say something about it"""
    out = [c for c in field_classes() if issubclass(c, kind)]
    for c in out:
        for m in KINDS[kind]:
            if inspect.getattr_static(c, m) is not inspect.getattr_static(kind, m):
                raise Unsupported(f"{c.__name__} has its own {m}")
    return out


class Log:
    """a list that things are appended to; those of completed iterations of a cut loop are not in it"""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)


def parsed(v):
    """what the field's own parse makes of a text: a value, or ValueError"""
    if cur().decide(z3.Function("rejected", S, z3.BoolSort())(z3val(v))):
        raise ValueError("rejected")
    return SInt(z3.Function("parsed", S, z3.IntSort())(z3val(v)))


def rejected(v):
    return cur().decide(z3.Function("rejected", S, z3.BoolSort())(z3val(v)))


def of(v):
    return SInt(z3.Function("parsed", S, z3.IntSort())(z3val(v)))


def matches(c, v):
    return not c.syntax or cur().decide(in_lang(v, relang.wire(relang.lang(rf"^\s*(?:{pattern_of(c)})\s*$", RE_FLAGS))))


def an_instance(ctx, kind, part, **k):
    cs = of_kind(kind)
    # fields that differ only in what they say about syntax are one case here
    byp = {}
    for c in cs:
        byp.setdefault((bool(getattr(c, "syntax", False)) and pattern_of(c), c.report_syntax), c)
    cs = sorted(byp.values(), key=lambda c: c.__name__)[part[0]::part[1]]
    c = cs[ctx.choose(len(cs), "the field")]
    h = c.__new__(c)
    h.__dict__.update(message=NS(message_type="response", notes=GhostNotes("message")), parse=lambda v, add_note: parsed(v), **k)
    ctx.functions.add(f"{kind.__module__}.{kind.__name__}")
    return c, h


def texts(name):
    out = register(PList(), name)
    out.sym = SList(name, maker=Maker(name, {"str"}))
    return out


def a_value(ctx, v):
    ctx.assume(in_lang(v, relang.wire(relang.lang(r"(?s)^.*\Z"))))


def list_line(ctx, part):
    """one more line of a list field, whatever came before"""
    ctx.wire = True
    log = Log()
    c, h = an_instance(ctx, HttpListField, part, value=log)
    line, offset = new_str("line"), new_int("offset", 0)
    elems = texts("elements")
    st = {}
    ctx.witness = lambda m: {"field": c.canonical_name, "lines": [conc(m, st["elem"])] if "elem" in st else []}

    def split(s):  # contract: the elements of the line, in order, none empty (judged natively)
        ctx.prove(s == line, "the line's own text is divided")
        return elems

    ctx.stubs["httplint.field.utils.split_list_field"] = split

    def begin(v):
        if v.seq is not elems.sym and v.seq.name != elems.sym.name:
            raise Unsupported("a loop over something else than the elements")
        st["elem"] = v.elem
        a_value(ctx, v.elem)
        ctx.assume(z3.Length(v.elem.e) > 0)
        st["n"], st["t"] = len(log.items), len(notes())

    def end(v):
        e = st["elem"]
        got = log.items[st["n"]:]
        if rejected(e.strip()):
            ctx.cover("rejected")
            ctx.prove(not got, "a rejected element is omitted", info=lambda: str(got))
        else:
            ctx.cover("kept")
            ctx.prove(len(got) == 1 and same(got[0], of(e.strip())), "an element adds its parsed value", info=lambda: str(got))
        ns = [r for r in notes()[st["t"]:] if r.name in SYNTAX]
        if matches(c, e):
            ctx.prove(not ns, "no syntax note for an element that matches")
        else:
            ctx.cover("mismatch")
            ctx.prove(len(ns) == 1, "one syntax note for an element that does not match", info=lambda: str(ns))
            ctx.prove(len(ns) == 1 and same(ns[0].subject, fstr("offset-", (offset, -1, None))), "its subject is the line's position",
                      info=lambda: str([n.subject for n in ns]))

    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(begin=begin, end=end) if "elem" not in st else None}
    status, got = raises(ctx, HttpListField.handle_input, h, line, add_note_fn(), offset)
    ctx.prove(status == "ok", "combining never raises", info=lambda: repr(got))
    if "elem" in st:
        ctx.prove(False, "every element is read")
    ctx.cover("done")
    ctx.prove(h.value is log and not log.items and not notes(), "nothing else is added")



def received(kind):
    """a further line is kept after those already received"""
    def run(ctx):
        c, h = an_instance(ctx, kind, (0, 1))
        raw = Log()
        h.__dict__["value" if kind is StructuredField else "raw_values"] = raw
        line, offset = new_str("line"), new_int("offset", 0)
        status, got = raises(ctx, kind.handle_input, h, line, add_note_fn(), offset)
        ctx.prove(status == "ok", "receiving a line never raises", info=lambda: repr(got))
        ctx.prove(not notes(), "no note yet")
        want = (line, offset) if kind is BrokenField else line
        ctx.prove(len(raw.items) == 1 and same(raw.items[0], want), "the line is kept, after those before", info=lambda: str(raw.items))
        ctx.cover("received")
    return run


def single(ctx):
    """only the first line counts"""
    ctx.wire = True
    c, h = an_instance(ctx, SingletonField, (0, 1), evaluate=lambda add_note: None)
    raw = texts("lines")
    h.__dict__.update(raw_values=raw, value=register(PList(), "values"))
    n = raw.slen()
    ctx.assume(tb(n >= 1))
    first = raw.getitem(0)
    a_value(ctx, first)
    ctx.witness = lambda m: {"field": c.canonical_name, "lines": [conc(m, first)] + ["x"] * min(conc(m, n) - 1, 3)}
    status, got = raises(ctx, SingletonField.finish, h, add_note_fn())
    ctx.prove(status == "ok", "combining never raises", info=lambda: repr(got))
    if rejected(first.strip()):
        ctx.cover("rejected")
        ctx.prove(h.value is None, "no value when the first line is rejected")
    else:
        ctx.cover("kept")
        ctx.prove(same(h.value, of(first.strip())), "the value is that of the first line", info=lambda: str(h.value))
    rep = len(notes({"SINGLE_HEADER_REPEAT"}))
    if ctx.decide(z3val(n) > 1):
        ctx.cover("repeated")
        ctx.prove(rep == 1, "one repetition note when there are more lines")
    else:
        ctx.prove(rep == 0, "no repetition note for one line")
    ns = notes(SYNTAX)
    if not matches(c, first) and c.report_syntax:
        ctx.cover("mismatch")
        ctx.prove(len(ns) == 1, "one syntax note for a value that does not match")
    else:
        ctx.prove(not ns, "no syntax note otherwise", info=lambda: c.__name__)


def multi(ctx):
    """each line on its own"""
    ctx.wire = True
    c, h = an_instance(ctx, BrokenField, (0, 1), evaluate=lambda add_note: None)
    raw = register(PList(), "lines")
    raw.sym = SList("lines", maker=Maker("lines", {("tuple", "str", "int")}))
    h.__dict__.update(raw_values=raw, value=register(PList(), "values"))
    st = {}
    ctx.witness = lambda m: {"field": c.canonical_name, "lines": [conc(m, st["elem"][0])]}

    def begin(v):
        if v.seq is not raw.sym and v.seq.name != raw.sym.name:
            raise Unsupported("a loop over something else than the lines")
        st["elem"] = v.elem
        a_value(ctx, v.elem[0])
        st["t"] = len(notes())

    def end(v):
        e, offset = st["elem"]
        ns = [r for r in notes()[st["t"]:] if r.name in SYNTAX]
        if matches(c, e):
            ctx.prove(not ns, "no syntax note for a line that matches")
        else:
            ctx.cover("mismatch")
            ctx.prove(len(ns) == 1, "one syntax note for a line that does not match", info=lambda: str(ns))
            ctx.prove(len(ns) == 1 and same(ns[0].subject, fstr("offset-", (offset, -1, None))), "its subject is the line's position")

    def collect(e):
        if rejected(e[0].strip()):
            ctx.cover("rejected")
            return []
        ctx.cover("kept")
        return [of(e[0].strip())]

    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(begin=begin, end=end, collect=collect) if "elem" not in st else None}
    status, got = raises(ctx, BrokenField.finish, h, add_note_fn())
    ctx.prove(status == "ok", "combining never raises", info=lambda: repr(got))
    if "elem" in st:
        ctx.prove(False, "every line is read")
    ctx.cover("done")
    from_ = getattr(h.value, "collected", None)
    if from_ is None:
        raise Unsupported("the values are not collected by a loop")
    ctx.prove(from_ is raw.sym or from_.name == raw.sym.name, "the value is what was collected from all the lines, in order")
    ctx.prove(not notes(), "no note outside the lines")


class Failure(Exception):
    pass


class SFError(http_sf.StructuredFieldError):
    def __str__(self):
        return "problem"


def structured(ctx):
    """the lines are joined and parsed once"""
    c, h = an_instance(ctx, StructuredField, (0, 1), evaluate=lambda add_note: None)
    lines = texts("lines")
    h.__dict__.update(value=lines, _sf_parsed=False)
    n = lines.slen()
    ctx.assume(tb(n >= 1))
    joined = str_join(", ", lines)
    calls = []
    result = object()
    kinds = [None, http_sf.StructuredFieldError, ValueError, Failure]
    how = kinds[ctx.choose(len(kinds), "how parsing ends")]

    def parse(data, *a, tltype=None, name=None, on_duplicate_key=None, **k):  # contract: some value, or an exception
        calls.append((data, tltype))
        if bool(new_bool("duplicate key")) and on_duplicate_key is not None:
            on_duplicate_key(new_str("key"), new_str("context"))
        if how is http_sf.StructuredFieldError:
            e = SFError("problem")
            e.position = new_int("position", 0) if bool(new_bool("position")) else None
            raise e
        if how is not None:
            raise how("problem")
        return result

    for name in ("http_sf.parse", http_sf.parse.__module__ + ".parse"):
        ctx.stubs[name] = parse
    ctx.stubs["httplint.note.MarkdownSafe"] = lambda s: s
    status, got = raises(ctx, StructuredField.finish, h, add_note_fn())
    ctx.prove(status == "ok", "combining never raises", info=lambda: repr(got))
    ctx.prove(len(calls) == 1, "the value is parsed once", info=lambda: str(len(calls)))
    if len(calls) != 1:
        return
    want = joined.strip().encode("utf-8")
    ctx.prove(same(calls[0][0], want), "what is parsed is the lines joined with commas", info=lambda: f"{calls[0][0]}, expected {want}")
    ctx.prove(calls[0][1] == c.sf_type, "as the field's type")
    errs = len(notes({"STRUCTURED_FIELD_PARSE_ERROR"}))
    if how is None:
        ctx.cover("parsed")
        ctx.prove(h.value is result and errs == 0, "the result is the field's value")
    else:
        ctx.cover("failed")
        ctx.prove(h.value is None and errs == 1, "one note and no value when it can't be parsed")
    status, got = raises(ctx, StructuredField.finish, h, add_note_fn())
    ctx.prove(status == "ok" and len(calls) == 1, "it is not parsed again")


def contracts():
    out = [Contract(f"list_line_{i}", lambda ctx, i=i: list_line(ctx, (i, 4)),
                    functions=["httplint.field.list_field.HttpListField.handle_input"],
                    covers=["kept", "rejected", "done"]) for i in range(4)]
    for kind in (SingletonField, BrokenField, StructuredField):
        out.append(Contract("received_" + kind.__name__, received(kind), functions=[f"{kind.__module__}.{kind.__name__}.handle_input"],
                            covers=["received"]))
    out.append(Contract("single", single, functions=["httplint.field.singleton_field.SingletonField.finish"],
                        covers=["kept", "rejected", "repeated", "mismatch"]))
    out.append(Contract("multi", multi, functions=["httplint.field.broken_field.BrokenField.finish"],
                        covers=["kept", "rejected", "done"]))
    out.append(Contract("structured", structured, functions=["httplint.field.structured_field.StructuredField.finish"],
                        covers=["parsed", "failed"]))
    return out
