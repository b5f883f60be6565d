"""P11: the lines, size and line notes of a section (httplint/field/section.py)."""
import z3
from pyvc.containers import Maker, PDict, PList, SList
from pyvc.core import new_bool, new_bytes, new_int, new_str, ctx as cur, is_sym, s_iff, tb, z3val, Unsupported
from pyvc.ghost import NS, GhostNotes, conc, notes
from pyvc.models import m_len
from pyvc.runtime import LoopSpec, fstr, register, same
from pyvc.verify import Contract, raises
from httplint.field.section import FieldSection
from props.p12 import Log

SIZES = {"FIELD_TOO_LARGE", "FIELD_SECTION_TOO_LARGE", "FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING"}


def process(ctx):
    raw = register(PList(), "raw_fields")
    raw.sym = SList("raw_fields", maker=Maker("raw_fields", {("tuple", "bytes", "bytes")}))
    text = Log()
    trailer = bool(new_bool("is_trailer"))
    sec = register(FieldSection.__new__(FieldSection), "section")
    st = {}

    def pre_check(add_note):
        st["checked"] = st.get("checked", 0) + 1
        return ctx.decide(z3.Bool("accepted"))

    def handle_input(value, add_note, offset):
        st["input"] = (value, offset)

    def finish(add_note):
        pass

    def find(name):
        st["name"] = name
        return NS(canonical_name=new_str("canonical_name"), norm_name="x", pre_check=pre_check, handle_input=handle_input,
                  finish=finish, value=None)

    sec.__dict__.update(message=NS(notes=GhostNotes("message"), message_type="response"), is_trailer=trailer, text=text, parsed=PDict(), size=0,
                        handlers=PDict(), _finder=NS(find_handler=find))

    def witness(m):
        return {"lines": [[conc(m, st["elem"][0]).decode("latin-1"), conc(m, st["elem"][1]).decode("latin-1")]]} if "elem" in st else {"lines": []}

    ctx.witness = witness

    def begin(v):
        line = v.elem[1] if len(v.elem) == 2 and type(v.elem[1]) is tuple else v.elem
        st["elem"], st["size"], st["k"], st["n"] = line, sec.size, v.k, len(text.items)
        st["t"] = len(notes())

    def end(v):
        name, value = st["elem"]
        subject = fstr("offset-", (st["k"], -1, None))
        ln, lv = m_len(name), m_len(value)
        ctx.prove(same(sec.size, st["size"] + ln + lv), "the size grows by the lengths of the line's name and value",
                  info=lambda: f"{sec.size}")
        name_ascii, value_ascii = name.isascii(), value.isascii()
        got = text.items[st["n"]:]
        n = name.decode("ascii") if name_ascii else name.decode("ascii", "ignore")
        t = value.decode("ascii") if value_ascii else value.decode("iso-8859-1")
        ctx.prove(len(got) == 1 and same(got[0], (n, t)), "the line joins the section's text", info=lambda: f"{got}, expected {(n, t)}")
        ctx.prove(same(st.get("name"), n), "the handler is the one for the name")
        ok = ctx.decide(z3.Bool("accepted"))
        if ok:
            ctx.cover("accepted")
            ctx.prove("input" in st and same(st["input"], (t, st["k"])), "an accepted line is given to the handler with its position")
        else:
            ctx.cover("refused")
            ctx.prove("input" not in st, "a refused line is not interpreted")
        new = [r for r in notes()[st["t"]:] if r.name in SIZES]
        names = sorted(r.name for r in new)
        want = []
        if not name_ascii:
            want.append("FIELD_NAME_ENCODING")
        if not value_ascii:
            want.append("FIELD_VALUE_ENCODING")
        if ok and ctx.decide(z3val(ln + lv) > 8192):
            want.append("FIELD_TOO_LARGE")
        for w in want:
            ctx.cover(w)
        ctx.prove(names == sorted(want), "a line gets exactly the notes that apply", info=lambda: f"{names}, expected {want}")
        for r in new:
            ctx.prove(same(r.subject, subject), "they are about the line's position", info=lambda: str(r.subject))

    def inv(v):
        out = []
        if v.k is not None:
            out.append(("the size is not negative", sec.size >= 0))
        if v.k is not None and not is_sym(v.k):
            out.append(("every line is read", v.seq is raw.sym or raw.sym.name in v.seq.name))
        return out

    def spec(lid, seq, loc):
        if "elem" in st or raw.sym.name not in seq.name:
            return None
        return LoopSpec(inv, begin=begin, end=end)

    ctx.loop_specs = {"*": spec}
    status, got = raises(ctx, FieldSection.process, sec, raw)
    ctx.prove(status == "ok", "processing never raises", info=lambda: repr(got))
    if status != "ok":
        return
    ctx.cover("done")
    new = [r for r in notes() if r.name in SIZES]
    if ctx.decide(z3val(sec.size) > 32768):
        ctx.cover("FIELD_SECTION_TOO_LARGE")
        ctx.prove([r.name for r in new] == ["FIELD_SECTION_TOO_LARGE"], "a section over the limit gets its note", info=lambda: str(new))
    else:
        ctx.prove(not new, "no other section does", info=lambda: str(new))


def contracts():
    return [
        Contract("process", process, functions=["httplint.field.section.FieldSection.process"],
                 covers=["done", "accepted", "refused", "FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE",
                         "FIELD_SECTION_TOO_LARGE"]),
    ]
