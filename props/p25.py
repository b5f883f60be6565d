"""P25: Cache-Control (httplint/field/parsers/cache_control.py)."""
import z3
from pyvc.verify import Contract, expect_ok, raises
from pyvc.ghost import NS, notes, add_note_fn, conc, Rec
from pyvc.core import new_int, new_str, new_bool, s_iff, s_and, s_or, SBool, SStr, S, is_sym, PathEnd
from pyvc.containers import LazyDict, Maker, PList, SList
from pyvc.runtime import LoopSpec
from httplint.field.parsers.cache_control import cache_control
from spec import cc as SP

Q = "httplint.field.parsers.cache_control.cache_control."
UNQ = "httplint.field.utils.unquote_string"


def unq(v):
    return SStr(z3.Function("unquoted", S, S)(v.e)) if is_sym(v) else v


def handler(**k):
    h = cache_control.__new__(cache_control)
    h.__dict__.update(k)
    return h


def parse(ctx):
    s = new_str("element")
    ctx.witness = lambda m: {"element": conc(m, s)}
    h = handler(message=NS(message_type="response"))
    st, got = raises(ctx, h.parse, s, add_note_fn())
    if st == "raise" and not isinstance(got, ValueError):
        ctx.prove(False, f"parse raises only ValueError, not {type(got).__name__}", info=str(got))
    pair, want = SP.parse(s, unq, SP.as_int)
    ctx.cover("entry" if pair else "rejected")
    ctx.prove((st == "ok") == (pair is not None), "an element is rejected exactly when a delta value is no integer")
    ctx.prove(sorted(r.name for r in notes()) == sorted(want), "exactly the specified parsing notes",
              info=lambda: f"got {notes()}, expected {want}")
    if pair is not None:
        ctx.prove(isinstance(got, tuple) and len(got) == 2, "parse gives a (name, value) pair")
        ctx.prove(got[0] == pair[0], "the name is the lowercased directive name")
        if pair[1] is None or got[1] is None:
            ctx.prove(pair[1] is None and got[1] is None, "no value exactly when none was given")
        else:
            ctx.prove(got[1] == pair[1], "the value is the integer, unquoted text or text given")


class Directives(PList):
    """the parsed value: any list of (name, value) pairs; delta directives have an integer value
    (the postcondition of parse)"""

    def __init__(self):
        list.__init__(self)
        self.sym = SList("directives", maker=Maker("directives", {("tuple", "str", "opaque")}))
        self.sym.maker = _Mk()
        self.d = _Last(self)

    def as_dict(self):
        return self.d

    def has(self, k):
        return self.sym.exists(lambda t: t[0] == k)

    def count(self, k):
        return self.sym.map(lambda t: t[0]).count(k)


class _Mk:
    shapes = {("tuple", "str", ("opaque",))}

    def __call__(self, i):
        f = z3.Function("directive_name", z3.IntSort(), S)
        return (SStr(f(i)), None)


class _Last(LazyDict):
    def __init__(self, dl):
        LazyDict.__init__(self, "cc", lambda k: new_int(f"last[{k}]"))
        self.dl = dl

    def has(self, k):
        return self.dl.has(k)


def setup(ctx):
    dl = Directives()
    mt = "response" if bool(new_bool("is_response")) else "request"
    h = handler(message=NS(message_type=mt), value=dl)

    def wit(m):
        pairs = []
        for k in SP.DIRECTIVES:
            if conc(m, SBool(z3.BoolVal(True)) if dl.has(k) is True else dl.has(k)):
                v = conc(m, dl.d.vals[k]) if k in dl.d.vals else {"delta": 5, "names": None, "flag": None}[SP.kind(k)]
                n = dl.count(k)
                pairs += [[k, v]] * (2 if not is_sym(n) or conc(m, n) > 1 else 1)
        return {"kind": mt, "pairs": pairs}

    ctx.witness = wit
    return dl, mt, h


def iteration(ctx, dl, mt):
    """contract of the loop over the distinct directives: each gets its own notes and no other"""

    def end(v):
        e = v.elem
        name = e[0] if isinstance(e, tuple) else e
        want = SP.directive_note(mt, name, dl.count(name))
        got = [r for r in v.trace if isinstance(r, Rec)]
        ctx.prove([r.name for r in got] == ([want] if want else []),
                  "each distinct directive gets exactly its wrong-direction or duplicate note",
                  info=lambda: f"got {got}, expected {want}")
        for r in got:
            ctx.prove(r.vars["directive"] == name, "the note names the directive")
        ctx.cover(str(want))

    return lambda lid, seq, loc: LoopSpec(lambda v: [], end=end)


def evaluate(ctx):
    dl, mt, h = setup(ctx)
    ctx.loop_specs = {"*": iteration(ctx, dl, mt)}
    expect_ok(ctx, "evaluate", h.evaluate, add_note_fn())
    got = notes()
    w = SP.conflict(mt, dl.has)
    ctx.cover("conflict" if w else "none")
    ctx.prove([r.vars["directive"] for r in got if r.name == "CC_CONFLICTING"] == ([w] if w else []),
              "the first directive that overrides another is noted, once", info=lambda: f"{got}, expected {w}")
    w = SP.check_note(dl.has, dl.d.value)
    ctx.cover(str(w))
    ctx.prove([r.name for r in got if r.name in SP.CHECK_NOTES] == ([w] if w else []),
              "exactly the specified pre-check and post-check note", info=lambda: f"{got}, expected {w}")
    ctx.prove(all(r.name in SP.NOTES for r in got), "no other note")


def contracts():
    return [
        Contract("parse", parse, functions=[Q + "parse"], stubs={UNQ: unq}, covers=["entry", "rejected"]),
        Contract("evaluate", evaluate, functions=[Q + "evaluate"],
                 stubs={"httplint.util.markdown_list": lambda v, **k: "list"},
                 covers=["conflict", "none", "CHECK_SINGLE", "CHECK_ALL_ZERO", "CHECK_POST_BIGGER", "CHECK_POST_ZERO",
                         "CHECK_POST_PRE", "CC_DUP", "CC_WRONG_MESSAGE"]),
    ]
