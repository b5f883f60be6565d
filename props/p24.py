"""P24: parameters and media types (httplint/field/utils.py, content_type.py, content_disposition.py)."""
import re
from functools import partial

import z3
from pyvc import relang
from pyvc.containers import Maker, PDict, PList, SList
from pyvc.core import S, SStr, new_bool, new_str, ctx as cur, is_sym, z3val, Unsupported
from pyvc.ghost import NS, add_note_fn, conc, notes
from pyvc.models import in_lang, re_sub
from pyvc.runtime import LoopSpec, same
from pyvc.verify import Contract, raises
import httplint.field.utils as U
from httplint.field.parsers.content_type import content_type
from httplint.field.parsers.content_disposition import content_disposition
from spec import grammar as GR
from spec import params as SP

Q = "httplint.field.utils."
TOKEN = GR.lang("token")
QUOTED = GR.lang("quoted-string")
VALUE_CHARS = GR.lang("value-chars")


def item_language():
    ws = relang.mask_of(str.isspace)

    def build(n, s):
        fill = lambda a, r: GR.fill(n, a, GR.tree(r))
        sp = lambda a: n.repeat(a, lambda b: n.chars(b, ws), 0, None)
        eq = lambda a: n.chars(a, relang.mask_of(lambda c: c == "="))
        s = fill(s, "token")
        return n.repeat(s, lambda a: n.alt(sp(eq(sp(a))), [lambda b: fill(b, "token"), lambda b: fill(b, "quoted-string")]), 0, 1)

    return relang.wire(relang.from_nfa(build))


ITEM = item_language()
NOSTARS = [None, True, ["charset"], ["rel", "rev", "anchor", "hreflang", "type", "media"]]


STAR_MISSING = {0: {"PARAM_STAR_BAD"}, 1: SP.STAR - {"PARAM_STAR_BAD", "PARAM_REPEATS"}}


def yes(s, d):
    return cur().decide(in_lang(s, d)) if is_sym(s) else d.accepts(s)


def unquote_percent(s, encoding="utf-8", errors="replace"):
    """trusted: urllib.parse.unquote"""
    c = cur()
    if errors == "strict":
        if not c.decide(z3.Function("utf8_encoded", S, z3.BoolSort())(z3val(s))):
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid")
        return SStr(z3.Function("percent_decoded", S, S)(z3val(s)))
    return SStr(z3.Function(f"percent_decoded_{errors}", S, S)(z3val(s)))


def decode(s):
    try:
        return unquote_percent(s, errors="strict")
    except UnicodeDecodeError:
        return None


def unquoted(s):
    return SStr(z3.Function("unquoted", S, S)(z3val(s)))


def parameters(ctx, nostar):
    ctx.wire = ctx.derive = True
    s = new_str("parameters")
    st = {}
    ctx.witness = lambda m: {"param": conc(m, st["elem"]), "nostar": nostar} if "elem" in st else None

    def split_string(text, item, split):  # assumed: the items that regular expression finds, in order
        ctx.prove(text == s, "the parameters themselves are split")
        ctx.prove(relang.compare(relang.lang(rf"(?:{item})\Z", re.VERBOSE), ITEM, True) is None,
                  "what is split out is a name with or without a value, with optional white space around the equals sign")
        ctx.prove(relang.compare(relang.lang(rf"(?:{split})\Z", re.VERBOSE), relang.lang(r"\s*;\s*\Z"), True) is None,
                  "what separates is a semicolon with white space around it")
        st["list"] = l = PList()
        l.sym = SList("items", maker=Maker("items", {"str"}))
        return l

    ctx.stubs[Q + "split_string"] = split_string
    ctx.stubs[Q + "unquote_string"] = unquoted
    ctx.stubs["urllib.parse.unquote"] = unquote_percent

    def the_map(v):
        ds = [x for x in v.values() if isinstance(x, PDict)]
        if len(ds) != 1:
            raise Unsupported("the map was not recognised")
        return ds[0]

    def begin(v):
        st["elem"] = v.elem
        ctx.assume(in_lang(v.elem, ITEM))
        st["map"] = the_map(v).copy()
        st["n"] = len(notes())

    def end(v):
        pre, post = st["map"], the_map(v)
        key, want, kept, value = SP.step(st["elem"], lambda k: pre.lookup(k)[0], nostar, unquoted,
                                         lambda t: yes(t, VALUE_CHARS), decode)
        for n in want:
            ctx.cover(n)
        ctx.cover("kept" if kept else "left out")
        got = [r.name for r in notes()[st["n"]:] if r.name in SP.STAR]
        ctx.prove(sorted(got) == sorted(want), "a parameter gets exactly the notes that apply",
                  info=lambda: f"{got}, expected {want}")
        x = new_str("any_name")
        found, is_ = post.lookup(x)
        if kept and ctx.decide(z3val(x) == z3val(key)):
            ctx.prove(found, "the parameter is in the map under its lowercased name")
            if found:
                ctx.prove(same(is_, value), "with its value", info=lambda: f"{is_}, expected {value}")
        else:
            was, old = pre.lookup(x)
            ctx.prove(found == was, "no other name is added or removed")
            if found and was:
                ctx.prove(same(is_, old), "no other name's value changes")

    def inv(v):
        if v.k is None or is_sym(v.k) or v.k != 0:
            return []
        m = the_map(v)
        return [("every item is read", "list" in st and (v.seq is st["list"].sym or v.seq.name == st["list"].sym.name)),
                ("the map starts empty", not m.is_symbolic() and len(m) == 0)]

    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(inv, begin=begin, end=end) if "elem" not in st else None}
    status, got = raises(ctx, U.parse_params, s, add_note_fn(), nostar)
    ctx.prove(status == "ok", "parsing parameters never raises", info=lambda: repr(got))
    ctx.cover("done")
    ctx.prove(isinstance(got, PDict), "the map is the result")


def unquote(ctx):
    ctx.wire = ctx.derive = True
    s = new_str("value")
    ctx.witness = lambda m: {"value": conc(m, s)}
    token = ctx.choose(2, "a token")
    ctx.assume(in_lang(s, TOKEN if token else QUOTED))
    status, got = raises(ctx, U.unquote_string, s)
    ctx.prove(status == "ok", "unquoting never raises", info=lambda: repr(got))
    if status != "ok":
        return
    if token:
        ctx.cover("token")
        ctx.prove(got == s.strip(), "a token is its own value")
    else:
        ctx.cover("quoted")
        ctx.prove(got == re_sub(r"\\(.)", r"\1", s.strip()[1:-1]), "quotes and backslashes are removed from a quoted string")


class BAD:  # stands for the note a field passes
    pass


def media(ctx):
    ctx.wire = True
    text = new_str("media_type")
    kw = {}
    if bool(new_bool("bad_note")):
        kw["bad_syntax_note"] = BAD
    if bool(new_bool("wildcard")):
        kw["allow_wildcard"] = True
    if bool(new_bool("check_token")):
        kw["check_token"] = True
    ctx.witness = lambda m: {"media_type": conc(m, text), "wildcard": kw.get("allow_wildcard", False)}
    reg = relang.wire(relang.lang(r"[A-Za-z0-9][A-Za-z0-9!#$&^_.+-]*\Z"))
    status, got = raises(ctx, U.check_media_type, text, add_note_fn(), **kw)
    ctx.prove(status == "ok", "checking a media type never raises", info=lambda: repr(got))
    want = SP.media_type(text, lambda p: yes(p, TOKEN), lambda p: yes(p, reg), "BAD" if "bad_syntax_note" in kw else None,
                         kw.get("allow_wildcard", False), kw.get("check_token", False))
    for w in want or ["none"]:
        ctx.cover(w)
    tr = [r.name for r in notes()]
    ctx.prove(sorted(tr) == sorted(want), "exactly the notes for the media type", info=lambda: f"{tr}, expected {want}")


def parts(ctx):
    """how a value is divided into type and parameters"""
    which = ctx.choose(3, "which")
    s = new_str("value")
    seen = {}
    ctx.witness = lambda m: {"whole": conc(m, s), "which": which}

    def check(mt, add_note, *a, **k):
        seen.setdefault("checked", []).append((mt, a, k))

    def params(text, add_note, nostar=None, delim=";"):
        seen.setdefault("parsed", []).append((text, nostar, delim))
        m = PDict()
        for k in ("filename", "filename*"):
            if bool(new_bool("has " + k)):
                m[k] = new_str(k)
        seen["map"] = m
        return m

    ctx.stubs[Q + "check_media_type"] = check
    ctx.stubs[Q + "parse_params"] = params
    if which == 0:
        kw = {"bad_syntax_note": BAD, "allow_wildcard": True, "nostar": ["q"], "ref_uri": "x"}
        status, got = raises(ctx, U.parse_media_type, s, add_note_fn(), **kw)
        nostar = ["q"]
    elif which == 1:
        h = content_type.__new__(content_type)
        h.__dict__.update(message=NS(message_type="response"))
        status, got = raises(ctx, h.parse, s, add_note_fn())
        nostar = ["charset"]
    else:
        h = content_disposition.__new__(content_disposition)
        h.__dict__.update(message=NS(message_type="response"))
        status, got = raises(ctx, h.parse, s, add_note_fn())
        nostar = None
    ctx.prove(status == "ok", "parsing never raises", info=lambda: repr(got))
    if status != "ok":
        return
    head, sep, tail = s.partition(";")
    name = head.strip().lower()
    ctx.cover(f"{which} {'with' if sep else 'without'}")
    ctx.prove(len(got) == 2 and got[0] == name, "the type is what precedes the parameters, lowercased")
    ctx.prove(len(seen.get("parsed", [])) == 1 and got[1] is seen["map"], "the parameters are parsed once and returned")
    ctx.prove(all(t == tail and d == ";" for t, _, d in seen.get("parsed", [])), "they are what follows the first semicolon")
    ctx.prove(all(list(n) == nostar if isinstance(n, list) else n == nostar for _, n, _ in seen.get("parsed", [])),
              "which names may not be extended is passed on")
    if which < 2:
        c = seen.get("checked", [])
        ctx.prove(len(c) == 1 and c[0][0] == name, "the media type is checked once")


def contracts():
    return [
        *[Contract(f"parameters {i}", partial(parameters, nostar=n), functions=[Q + "parse_params"],
                   covers=sorted(SP.STAR - STAR_MISSING.get(i, set())) + ["kept", "left out", "done"])
          for i, n in enumerate(NOSTARS)],
        Contract("unquote", unquote, functions=[Q + "unquote_string"], covers=["token", "quoted"]),
        Contract("media", media, functions=[Q + "check_media_type"],
                 covers=["none", "BAD", "MEDIA_TYPE_LONG_NAME", "MEDIA_TYPE_BAD_NAME"]),
        Contract("parts", parts, functions=[Q + "parse_media_type", "httplint.field.parsers.content_type.content_type.parse",
                                            "httplint.field.parsers.content_disposition.content_disposition.parse"],
                 covers=[f"{i} {w}" for i in range(3) for w in ("with", "without")]),
    ]
