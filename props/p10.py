"""P10: which handler a field name gets (httplint/field/finder.py, section.py)."""
import z3
from pyvc.containers import Maker, PDict, PList, SList
from pyvc.core import S, SInt, new_bool, new_int, new_str, ctx as cur, is_sym, s_or, tb, z3val, Unsupported
from pyvc.ghost import NS, GhostNotes, add_note_fn, conc, notes
from pyvc.runtime import LoopSpec, register, same
from pyvc.verify import Contract, raises
from httplint.field import HttpField
from httplint.field.finder import HttpFieldFinder, UnknownHttpField
from httplint.field.section import FieldSection
from props.p23 import field_classes
from spec import fields as SP

F = "httplint.field.finder.HttpFieldFinder."
PINNED = set(SP.NAMES.values())


def lookup(ctx):
    """the class depends on the lowercased name alone, and is the specified one"""
    name = new_str("name")
    low = name.lower()
    ctx.witness = lambda m: {"name": conc(m, name)}
    status, got = raises(ctx, HttpFieldFinder.find_handler_class, name)
    ctx.prove(status == "ok", "finding a class never raises", info=lambda: repr(got))
    if status != "ok":
        return
    if got is None or got is UnknownHttpField:
        ctx.cover("unknown")
        ctx.prove(s_or(*[low == n for n in SP.NAMES]) == False, "no known name is treated as unknown")  # noqa: E712
        return
    mine = SP.of_class(got.__name__)
    if got.__name__ not in PINNED:  # a class that the specification does not know: by its own name
        mine = [getattr(got, "canonical_name", got.__name__.replace("_", "-")).lower()]
    ctx.cover(got.__name__)
    ctx.prove(s_or(*[low == n for n in mine]), "a field's handler is only used for its own names",
              info=lambda: f"{got.__name__} is for {mine}")


class Handlers:
    """the handlers already there, any of them"""

    pv_model = True

    def __init__(self, norm):
        self.norm, self.made = norm, None
        self.here = NS(norm_name=norm)
        self.writes = []

    def _has(self, k):
        if not cur().decide(tb(k == self.norm)):
            raise Unsupported("another name is looked up")
        return cur().decide(z3.Bool("already there"))

    def __contains__(self, k):
        return self._has(k)

    def __getitem__(self, k):
        if not self._has(k):
            raise KeyError(k)
        return self.here

    def get(self, k, default=None):
        return self.here if self._has(k) else default

    def __setitem__(self, k, v):
        self.writes.append((k, v))


class Made:
    def __init__(self, wire_name, message):
        self.args = (wire_name, message)


def share(ctx):
    """equal names share a handler"""
    name = new_str("name")
    norm = name.strip().lower()
    handlers = Handlers(norm)
    message = NS(message_type="response")
    finder = HttpFieldFinder.__new__(HttpFieldFinder)
    finder.__dict__.update(message=message, field_section=NS(handlers=handlers))
    known = bool(new_bool("known"))
    asked = []

    def find_class(n):
        asked.append(n)
        return Made if known else None

    ctx.stubs[F + "find_handler_class"] = find_class
    ctx.witness = lambda m: {"name": conc(m, name)}
    status, got = raises(ctx, HttpFieldFinder.find_handler, finder, name)
    ctx.prove(status == "ok", "finding a handler never raises", info=lambda: repr(got))
    if status != "ok":
        return
    if handlers._has(norm):
        ctx.cover("shared")
        ctx.prove(got is handlers.here and not handlers.writes, "the handler that is there is used")
        return
    ctx.cover("made")
    ctx.prove(len(handlers.writes) == 1 and same(handlers.writes[0][0], norm) and handlers.writes[0][1] is got,
              "a new handler is kept under the lowercase name", info=lambda: str(handlers.writes))
    if known:
        ctx.prove(isinstance(got, Made) and same(got.args[0].strip().lower(), norm) and got.args[1] is message,
                  "it is an instance of the class found")
    else:
        ctx.cover("unknown")
        ctx.prove(type(got) is UnknownHttpField, "any other name gets the handler for unknown fields")
        if type(got) is UnknownHttpField:
            ctx.prove(same(got.norm_name, norm), "which goes by the lowercase name")
    for a in asked:
        ctx.prove(same(a.strip().lower(), norm), "the class is looked up by the name")


def unknown(ctx):
    """an unknown field adds nothing"""
    h = UnknownHttpField("X", NS(message_type="response"))
    status, got = raises(ctx, UnknownHttpField.handle_input, h, new_str("value"), add_note_fn(), new_int("offset", 0))
    ctx.prove(status == "ok", "receiving a line never raises")
    status, got = raises(ctx, UnknownHttpField.finish, h, add_note_fn())
    ctx.prove(status == "ok", "finishing never raises")
    status, got = raises(ctx, UnknownHttpField.post_check, h, add_note_fn())
    ctx.prove(status == "ok", "the final check never raises")
    ctx.cover("unknown")
    ctx.prove(not notes(), "no note")


def named(ctx):
    """a handler goes by its stripped, lowercased name"""
    cs = [UnknownHttpField] + field_classes()
    c = [UnknownHttpField, *[x for x in cs[1:] if x.__init__ is HttpField.__init__][:1]][ctx.choose(2, "class")]
    name = new_str("name")
    h = c.__new__(c)
    status, got = raises(ctx, HttpField.__init__, h, name, NS(message_type="response"))
    ctx.prove(status == "ok", "making a handler never raises", info=lambda: repr(got))
    ctx.cover("made")
    ctx.prove(same(h.norm_name, name.strip().lower()), "its normal name is the lowercase name")
    ctx.prove(same(h.wire_name, name.strip()), "its name is as received")


class Parsed:
    pv_model = True

    def __init__(self):
        self.writes = []

    def __setitem__(self, k, v):
        self.writes.append((k, v))


def results(ctx):
    """each handler gives one entry, under its normal name"""
    sec = FieldSection.__new__(FieldSection)
    parsed = Parsed()
    made = {}
    st = {}

    def entry(n):
        key = z3val(n).sexpr()
        if key not in made:
            h = NS(norm_name=n, canonical_name=n, value=object(), finished=0)
            final = object()

            def finish(add_note):
                h.finished += 1
                h.value = final

            h.finish, h.final = finish, final
            made[key] = h
        return (n, made[key])

    items = register(PList(), "items")
    items.sym = SList("items", parent=SList("names", maker=Maker("names", {"str"})), mapf=entry)
    vals = PList()
    vals.sym = SList("items", parent=items.sym.parent, mapf=lambda n: entry(n)[1])
    keys = PList()
    keys.sym = items.sym.parent
    sec.__dict__.update(message=NS(notes=GhostNotes("message")), is_trailer=False, text=PList(), parsed=parsed, size=0,
                        handlers=NS(items=lambda: items, values=lambda: vals, keys=lambda: keys),
                        _finder=None)

    def begin(v):
        e = v.elem
        st["elem"] = e[1] if isinstance(e, tuple) else e
        st["n"] = len(parsed.writes)

    def end(v):
        h = st["elem"]
        if not isinstance(h, NS):
            raise Unsupported("a loop over something else than the handlers")
        new = parsed.writes[st["n"]:]
        ctx.cover("entry")
        ctx.prove(h.finished == 1, "each handler is finished once")
        ctx.prove(len(new) == 1 and same(new[0][0], h.norm_name) and new[0][1] is h.final,
                  "and its value is the entry under its normal name", info=lambda: str(new))

    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(begin=begin, end=end) if "elem" not in st else None}
    status, got = raises(ctx, FieldSection.process, sec, PList())
    ctx.prove(status == "ok", "processing never raises", info=lambda: repr(got))
    if "elem" in st:
        ctx.prove(False, "every handler is finished")
    ctx.cover("done")
    ctx.prove(not parsed.writes, "no other entry")


def contracts():
    fs = "httplint.field.finder.HttpFieldFinder."
    return [
        Contract("lookup", lookup, functions=[fs + "find_handler_class"], covers=["unknown", "content_type", "x_pad", "DeprecatedField", "UnnecessaryField"]),
        Contract("share", share, functions=[fs + "find_handler"], covers=["shared", "made", "unknown"]),
        Contract("unknown", unknown, functions=["httplint.field.finder.UnknownHttpField"], covers=["unknown"]),
        Contract("named", named, functions=["httplint.field.HttpField.__init__"], covers=["made"]),
        Contract("results", results, functions=["httplint.field.section.FieldSection.process"], covers=["entry", "done"]),
    ]
