"""P16: Strict-Transport-Security (httplint/field/parsers/strict_transport_security.py)."""
import z3
from pyvc import core
from pyvc.core import S, SStr, new_bool, new_enum, new_int, new_str, is_sym, s_and, s_iff, Unsupported, tb
from pyvc.containers import PDict, PList, PSet, SList
from pyvc.ghost import NS, Rec, add_note_fn, conc, notes, optional
from pyvc.runtime import Emitted, LoopSpec, register, same, veq
from pyvc.verify import Contract, expect_ok, raises
from httplint.field.parsers import strict_transport_security as M
from spec import hsts as SP

CLS = M.strict_transport_security
Q = "httplint.field.parsers.strict_transport_security.strict_transport_security."
DEFERRED = [M.HSTS_TRAILING_SEMICOLON, M.HSTS_DUPLICATE_DIRECTIVE, M.HSTS_BAD_MAX_AGE, M.HSTS_VALUE_NOT_ALLOWED]


def unq(v):
    return SStr(z3.Function("unquoted", S, S)(v.e)) if is_sym(v) else v


def handler(**k):
    h = CLS.__new__(CLS)
    h.__dict__.update(k)
    return h


def is_policy(d):
    return isinstance(d, PDict) and not d.is_symbolic() and "includesubdomains" in list(dict.keys(d))


def parse(ctx):
    s = new_str("value")
    deferred = register(PList(), "deferred")
    h = handler(message=NS(message_type="response"), _deferred_notes=deferred)
    st = {}
    ctx.witness = lambda m: {"value": conc(m, st["elem"]) if "elem" in st else conc(m, s)}

    def names():
        return [n[0].__name__ for n in list.__iter__(deferred)]

    def find(v):
        pol = [x for x in v.values() if is_policy(x)]
        seen = [x for x in v.values() if isinstance(x, (PSet, PDict)) and not is_policy(x)]
        if len(pol) != 1 or len(seen) != 1:
            raise Unsupported("the parser's loop state was not recognised")
        return pol[0], seen[0]

    def begin(v):
        pol, seen = find(v)
        st["elem"] = v.elem
        st["pol"] = dict(dict.items(pol))
        st["seen"] = PSet(seen) if isinstance(seen, PSet) else seen.copy()
        st["n"] = len(list(list.__iter__(deferred)))

    def end(v):
        pol, seen = find(v)
        pre = st["seen"]
        name, change, note = SP.step(lambda n: bool(pre.scontains(n)), v.elem, unq)
        ctx.cover(str(note))
        got = names()[st["n"]:]
        ctx.prove(got == ([note] if note else []), "a directive gives exactly the specified note",
                  info=lambda: f"got {got}, expected {note}")
        want = dict(st["pol"], **change)
        for k in SP.INITIAL:
            ctx.prove(same(dict.get(pol, k), want[k]), f"a directive changes {k} exactly as specified",
                      info=lambda: f"got {dict.get(pol, k)}, expected {want[k]}")
        ctx.prove(set(dict.keys(pol)) == set(SP.INITIAL), "no other key")
        x = new_str("any_name")
        was = pre.scontains(x)
        ctx.prove(s_iff(seen.scontains(x), was if name is None else core.s_or(was, x == name)),
                  "exactly the directive's name joins the names seen")

    def inv(v):
        if v.k is None or is_sym(v.k) or v.k != 0:
            return []
        pol, seen = find(v)
        parts = s.split(";")
        n = parts.slen() - 1 if pieces_end_empty(ctx, s) else parts.slen()
        j = new_int("any_position", 0)
        ctx.assume(tb(j < v.seq.slen()))
        return [("every directive is read", v.seq.slen() == n),
                ("in order, without the whitespace around it", v.seq.elem(j.e) == parts.sym.elem(j.e).strip()),
                ("the policy starts with no max-age and both flags off",
                 set(dict.keys(pol)) == set(SP.INITIAL) and s_and(*[same(dict.get(pol, k), SP.INITIAL[k]) for k in SP.INITIAL])),
                ("no name is seen yet", not seen.is_symbolic() and len(seen) == 0),
                ("only a trailing semicolon is noted before the directives", names() == (
                    ["HSTS_TRAILING_SEMICOLON"] if pieces_end_empty(ctx, s) else []))]

    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(inv, begin=begin, end=end)}
    got = expect_ok(ctx, "parse", h.parse, s, add_note_fn())
    ctx.cover("accepted")
    ctx.prove(is_policy(got), "the policy built by the loop is the result")
    ctx.prove(not notes(), "no note is added directly")


def pieces_end_empty(ctx, s):
    """more than one piece, the last one blank"""
    parts = [p for p in [s.split(";")]][0]
    return bool(s.scontains(";")) and bool(parts[-1].strip() == "")


class Deferred(PList):
    """any list of parsing notes (the postcondition of parse)"""

    def __init__(self):
        list.__init__(self)
        self.sym = SList("deferred", maker=_Mk())


class _Mk:
    shapes = {("tuple", ("opaque",), ("opaque",))}

    def __call__(self, i):
        return (new_enum("kind", DEFERRED, i), PDict())


def evaluate(ctx):
    pol = PDict()
    pol["max-age"] = optional("max_age", new_int("max_age", 0))
    pol["includesubdomains"] = new_bool("includesubdomains")
    pol["preload"] = new_bool("preload")
    d = Deferred()
    base = new_str("base_uri")
    status = optional("status", new_int("status"))
    h = handler(message=NS(message_type="response", base_uri=base, status_code=status, notes=[]), value=pol,
                _deferred_notes=d)

    def has(*cls):
        return d.sym.exists(lambda t: core.s_or(*[t[0].is_(c) for c in cls]))

    inval = has(M.HSTS_DUPLICATE_DIRECTIVE, M.HSTS_BAD_MAX_AGE, M.HSTS_VALUE_NOT_ALLOWED)
    bad = has(M.HSTS_BAD_MAX_AGE)

    def wit(m):
        n = conc(m, pol["max-age"])
        v = ["max-age=a"] if conc(m, bad) else []
        if n is not None:
            v = v + ["max-age=%d" % n] if not v else ["max-age=%d" % n]
        if conc(m, inval) and not conc(m, bad):
            v += ["x", "x"]
        if conc(m, pol["includesubdomains"]):
            v.append("includeSubDomains")
        if conc(m, pol["preload"]):
            v.append("preload")
        st = conc(m, status)
        return {"value": "; ".join(v), "base": conc(m, base), "status": "abc" if st is None else str(st)}

    ctx.witness = wit

    def emit(e, recs):
        return len(recs) == 1 and isinstance(recs[0], Rec) and recs[0].parent is not None and (
            veq(recs[0].note, e[0]))

    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(emit=emit, none=[
        lambda t: core.s_or(*[t[0].is_(c) for c in DEFERRED[1:]])])}
    expect_ok(ctx, "evaluate", h.evaluate, add_note_fn())
    got = notes()
    valid, adv = SP.judge(pol, bool(inval), bool(bad), bool(base.startswith("http:")), status)
    top = [r for r in got if r.parent is None]
    ctx.cover("valid" if valid else "invalid")
    ctx.prove([r.name for r in top] == ["HSTS_VALID" if valid else "HSTS_INVALID"],
              "exactly one verdict, valid exactly when the policy is", info=lambda: f"{top}")
    kids = [r for r in got if r.parent is not None]
    ctx.prove(sorted(r.name for r in kids) == sorted(adv), "exactly the specified advice",
              info=lambda: f"got {kids}, expected {adv}")
    ctx.prove(all(r.parent in top for r in kids), "the advice is under the verdict")
    em = [t for t in ctx.trace if isinstance(t, Emitted)]
    ctx.prove(len(em) == 1 and em[0].seq is d.sym, "every parsing note is put under the verdict, once")


def contracts():
    return [
        Contract("parse", parse, functions=[Q + "parse"], stubs={"httplint.field.utils.unquote_string": unq},
                 covers=["accepted", "None", "HSTS_DUPLICATE_DIRECTIVE", "HSTS_BAD_MAX_AGE", "HSTS_VALUE_NOT_ALLOWED"]),
        Contract("evaluate", evaluate, functions=[Q + "evaluate"], covers=["valid", "invalid"]),
    ]
