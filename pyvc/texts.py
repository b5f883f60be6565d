"""What a symbolic text may hold: an over-approximation as a regular language, from the term's structure.

`up(t)` reads the term (concatenation, deletion of characters, lines, joins, ...) and gives a pattern that
every value of the term matches.  `within(t, lang)` proves inclusion with relang's automata.  In loops, what
is appended to a list (or kept in a local) is remembered by the named languages of `ctx.texts` it is within.
"""
from __future__ import annotations

import re

import z3

from . import core, relang
from .core import S, SStr, is_sym, text_value

SPECIAL = "`\n\r\x02\x03<>&\"'[]()!\\*_# \t;:"
BREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


class Up:
    def __init__(self, pattern, excl=None, some=False, exact=True):
        # excl: the text is any sequence of characters other than these (non-empty, if some)
        self.pattern, self.excl, self.some, self.exact = pattern, excl, some, exact


def piece(excl, some=False, exact=True):
    excl = frozenset(excl)
    cls = "[^" + "".join(re.escape(c) for c in sorted(excl)) + "]" if excl else "[\\s\\S]"
    return Up(f"(?:{cls}{'+' if some else '*'})", excl, some, exact)


def deletes(pattern, flags):
    """the characters that re.sub(pattern, '', s) deletes, if it deletes characters one by one; else None"""
    try:
        tree = list(relang.P.parse(pattern, flags))
    except Exception:
        return None
    K = relang.K
    if len(tree) == 1 and tree[0][0] in (K.MAX_REPEAT,) and tree[0][1][0] in (0, 1) and tree[0][1][1] is K.MAXREPEAT:
        tree = list(tree[0][1][2])
    if len(tree) == 1 and tree[0][0] in (K.IN, K.LITERAL, K.NOT_LITERAL):
        return frozenset(c for c in SPECIAL + BREAKS if re.fullmatch(pattern, c, flags))
    return None


def nonempty(e):
    return not core.ctx().feasible(e == z3.StringVal(""))


def up(e, gone=frozenset()):
    """the texts that e may be, after deletion of the characters `gone`"""
    c = core.ctx()
    e = z3.simplify(e)
    for x, lit in c.subst:
        if x.eq(e):
            e = lit
    if z3.is_string_value(e):
        s = "".join(ch for ch in core.zstr_value(e) if ch not in gone)
        return Up(re.escape(s))
    k = e.decl().kind()
    nm = e.decl().name()
    if k == z3.Z3_OP_SEQ_CONCAT:
        parts = [up(x, gone) for x in e.children()]
        return Up("".join(p.pattern for p in parts), exact=all(p.exact for p in parts))
    if k == z3.Z3_OP_ITE:
        a, b = up(e.arg(1), gone), up(e.arg(2), gone)
        for u, v, lit in ((a, b, e.arg(2)), (b, a, e.arg(1))):
            if u.excl is not None and z3.is_string_value(lit) and not u.excl & set(core.zstr_value(lit)):
                return piece(u.excl, False, False)
        return Up(f"(?:{a.pattern}|{b.pattern})", exact=a.exact and b.exact)
    got = _app(c, e, k, nm, gone)
    if got.excl is not None and not got.some and not gone and nonempty(e):
        got = piece(got.excl, True, got.exact)
    return got


def _app(c, e, k, nm, gone):
    if nm in core.REPLACED:
        a, b = core.REPLACED[nm]
        if b == "" and len(a) == 1:
            return up(e.arg(0), gone | {a})
        inner = up(e.arg(0), gone)
        if len(a) == 1 and inner.excl is not None:
            return piece((inner.excl | {a}) - set(b), False, inner.exact)
        return piece(gone, exact=False)
    if nm.startswith("sub_") and e.num_args() == 1 and nm in c.memo:
        pattern, repl, flags = c.memo[nm]
        ds = deletes(pattern, flags)
        if ds is not None and repl == "":
            return up(e.arg(0), gone | ds)
        inner = up(e.arg(0), gone)
        if ds is not None and inner.excl is not None:
            return piece((inner.excl | ds) - set(repl), False, inner.exact)
        plain = re.sub(r"\\\d", "", repl)
        if inner.excl is not None and "\\" not in plain:  # parts of the text, and the characters of the template
            return piece(inner.excl - set(plain), False, False)
        return piece(gone, exact=False)
    if ("excl", nm) in c.memo:
        return piece(c.memo["excl", nm] | gone, False, False)
    if ("upper", nm) in c.memo:
        p = c.memo["upper", nm]
        if gone:
            return Up(deleted(p, gone), exact=False) if deleted(p, gone) else piece(gone, exact=False)
        return Up(p)
    if nm == "str_of_int":
        return Up("(?:-?[0-9]+)")
    if ("join", nm) in c.memo:
        sep, sl = c.memo["join", nm]
        el = element(c, sl, gone)
        s2 = "".join(ch for ch in sep if ch not in gone)
        if el.excl is not None:
            return piece(el.excl - set(s2), False, el.exact)
        return Up(f"(?:{el.pattern}(?:{re.escape(s2)}{el.pattern})*)?", exact=el.exact)
    if nm in ("strip", "lower", "upper") or nm.startswith(("op_strip", "op_lstrip", "op_rstrip")):
        inner = up(e.arg(0), gone)
        if inner.excl is not None:
            return piece({x for x in inner.excl if x.lower() == x.upper()}, False, False)
        return piece(gone, exact=False)
    if k == z3.Z3_OP_SEQ_EXTRACT:
        inner = up(e.arg(0), gone)
        return piece(inner.excl if inner.excl is not None else gone, False, inner.exact)
    src = c.memo.get(("maker", nm))
    if src is not None:
        return line_of(c, src, gone)
    # an unknown text
    return piece(gone, exact=e.num_args() == 0 or z3.is_int(e.arg(0)))


def deleted(pattern, gone):
    """the pattern without characters that it excludes anyway"""
    try:
        d = relang.lang(f"(?s)(?:{pattern})\\Z")
    except relang.Refused:
        return None
    for ch in gone:
        if relang.meet(d, relang.lang(f"(?s).*{re.escape(ch)}.*\\Z")) is not None:
            return None
    return pattern


def one_line(e):
    """the text again, if it is known to be a single line"""
    inner = up(e)
    if inner.excl is not None or not deleted(inner.pattern, BREAKS):
        return None
    c = core.ctx()
    r = c.fresh("line", S)
    c.memo["upper", r.decl().name()] = f"(?:{inner.pattern})"
    if 0 not in dfa(inner.pattern).acc:
        c.assume(r != z3.StringVal(""))
    return SStr(r)


def line_of(c, src, gone):
    """an element of a text that was cut up"""
    op, s = src
    inner = up(s.e, gone)
    ex = set(inner.excl if inner.excl is not None else gone)
    if inner.excl is None:
        inner = Up(inner.pattern, exact=False)
    if op == "splitlines":
        return piece(ex | set(BREAKS), exact=inner.exact)
    if op == "split_None_-1":
        return piece(ex | set(BREAKS + " \t"), True, inner.exact)
    return piece(ex, exact=False)


def element(c, sl, gone):
    key = ("element", sl.name, tuple(sorted(gone)), sl.parent is not None)
    if sl.maker is not None and sl.parent is None and len(sl.maker.shapes) != 1:
        ps = []
        for i, sh in enumerate(sorted(sl.maker.shapes, key=str)):
            v = sl.maker._mk(sh, f"{sl.maker.base}_{i}", z3.Int("any_idx"))
            ps.append(up(core.z3val(v), gone))
        return Up("(?:" + "|".join(p.pattern for p in ps) + ")", exact=all(p.exact for p in ps))
    v, _ = sl.any_elem(z3.Int("any_idx"))
    u = up(core.z3val(v), gone)
    return u if u.excl is not None else Up(f"(?:{u.pattern})", exact=u.exact)


def dfa(pattern):
    return relang.lang(f"(?s)(?:{pattern})\\Z")


LANGS = {}


def within(e, pattern):
    """None, or (a text that e may be and the pattern does not allow, whether the approximation is exact)"""
    u = up(e)
    key = (u.pattern, pattern)
    if key not in LANGS:
        LANGS[key] = relang.subset(dfa(u.pattern), dfa(pattern))
    r = LANGS[key]
    return None if r is None else (r, u.exact)


def prove_within(v, pattern, what):
    c = core.ctx()
    if not is_sym(v):
        ok = re.fullmatch(pattern, str(v), re.S) is not None
        c.prove(ok, what, info=lambda: repr(str(v)))
        return
    r = within(v.e, pattern)
    if r is not None and not r[1]:
        raise core.Unsupported(f"{what}: not decided for {z3.simplify(v.e).sexpr()[:1500]}")
    c.prove(r is None, what, info=lambda: f"it may be {r[0]!r}: {z3.simplify(v.e).sexpr()[:300]}", by="relang")


def shape(v):
    """the name of the first of ctx.texts that the text is within"""
    e = core.z3val(v)
    for name, pattern in core.ctx().texts.items():
        if not is_sym(v):
            if re.fullmatch(pattern, str(v), re.S):
                return ("text", name)
        elif within(e, pattern) is None:
            return ("text", name)
    return "str"


def fresh(name, decl):
    c = core.ctx()
    c.memo["upper", decl.name()] = c.texts[name]
