"""Models of builtins (exact on the supported subset) and of external functions (trusted)."""
from __future__ import annotations

import calendar
import hashlib
import re
import types

import z3

from . import core
from . import relang
from .core import (
    Opaque, PathEnd, SBool, SBytes, SInt, SReal, SStr, SText, Sym, Unsupported, S, ctx, is_sym, mkbool, mknum, mkstr,
    s_and, s_not, s_or, tb, z3val, zstr_value,
)
from .containers import LazyDict, Maker, PDict, PList, PSet, SList, deep_sym, each, hashable, veq


def m_len(x):
    if type(x) is core.SView:
        return x.slen()
    if isinstance(x, (SText, SList, PList, PSet)) and (is_sym(x) or not isinstance(x, Sym)):
        return x.slen()
    if isinstance(x, PDict):
        if x.is_symbolic():
            n = ctx().fresh("dictlen", z3.IntSort())
            ctx().assume((n > 0) == z3.BoolVal(bool(x)))
            ctx().assume(n >= 0)
            return SInt(n)
        return dict.__len__(x)
    if is_sym(x):
        raise TypeError("object has no len()")
    return len(x)


def m_int(*a, **k):
    if len(a) == 1 and not k and hasattr(type(a[0]), "sym_int"):
        return a[0].sym_int()
    if not a:
        return 0
    x = a[0]
    if not is_sym(x):
        if deep_sym(x) or len(a) > 1 and deep_sym(a[1:]):
            raise TypeError("int() argument must be a string, a bytes-like object or a real number")
        return int(*a, **k)
    if type(x) is SInt:
        return x
    if type(x) is SBool:
        return mknum(core._b2i(x.e))
    if type(x) is SReal:
        e = x.e
        return mknum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if type(x) in (SStr, SBytes):
        base = a[1] if len(a) > 1 else k.get("base", 10)
        if base != 10:
            raise Unsupported("int with base")
        ok = core._int_ok(x.e)
        v = core._int_of(x.e)
        ctx().axiom(
            ("int", core.kid(x.e)),
            lambda: [
                z3.Implies(x.e == z3.StringVal(""), z3.Not(ok)),
            ],
        )
        if type(x) is SStr and ctx().memo.get(("langs", core.kid(z3.simplify(x.e)))):
            ctx().assume(z3.Implies(z3.And(in_lang(x, relang.lang(r"^[0-9]*\Z")), x.e != z3.StringVal(""), z3.Length(x.e) <= 4300), z3.And(ok, v >= 0)))
            ctx().assume(z3.Implies(ok, in_lang(x, relang.lang(r"^\s*[+-]?\d[\d_]*\s*\Z"))))
        if not ctx().decide(ok):
            raise ValueError("invalid literal for int()")
        ctx().axiom(("int2", core.kid(x.e)), lambda: [z3.Implies(core._isdigit(x.e), v >= 0)])
        return SInt(v)
    raise TypeError("int() argument must be a string, a bytes-like object or a real number")


def m_float(*a):
    x = a[0]
    if not is_sym(x):
        return float(*a)
    if type(x) is SInt:
        return SReal(z3.ToReal(x.e))
    if type(x) is SReal:
        return x
    if isinstance(x, SText):
        if not ctx().decide(z3.Function("float_ok", S, z3.BoolSort())(x.e)):
            raise ValueError("could not convert string to float")
        # may be inf or nan: treated as an unknown real; callers must not depend on it
        ctx().approx = True
        return SReal(z3.Function("float_of", S, z3.RealSort())(x.e))
    raise TypeError("float() argument")


def m_str(*a, **k):
    from .runtime import to_text

    if not a:
        return ""
    x = a[0]
    if type(x) is SStr:
        return x
    if is_sym(x) and type(x) not in core.OPTS and isinstance(x, SStr) and not k and len(a) == 1:
        return SStr(x.e)
    if deep_sym(x) or isinstance(x, BaseException) and deep_sym(x.args):
        if len(a) > 1:
            raise Unsupported("str with encoding")
        return mkstr(to_text(x))
    return str(*a, **k)


def m_bool(*a):
    if not a:
        return False
    return mkbool(tb(a[0])) if is_sym(a[0]) else bool(a[0])


def m_abs(x):
    return abs(x)


def _minmax(which, a, k):
    if k:
        if any(deep_sym(x) for x in a):
            raise Unsupported("min/max with key")
        return which(*a, **k)
    xs = a
    if len(a) == 1:
        if isinstance(a[0], PList) and a[0].sym is not None:
            sl = a[0].sym
            if not bool(a[0]):
                raise ValueError("empty sequence")
            r = core.SInt(ctx().fresh("extremum", z3.IntSort()))
            if sl.maker is None or sl.maker.shapes != {"int"}:
                raise Unsupported("min/max of symbolic list")
            ctx().approx = True
            return r
        xs = list(a[0])
        if not xs:
            return which(xs)
    r = xs[0]
    for y in xs[1:]:
        if is_sym(r) or is_sym(y):
            c = (y < r) if which is min else (y > r)
            if isinstance(c, bool):
                r = y if c else r
            else:
                r = core.s_if(c, y, r)
        else:
            r = which(r, y)
    return r


def m_sum(it, start=0):
    if isinstance(it, PList) and it.sym is not None or isinstance(it, SList):
        if isinstance(start, list):
            sl = it.sym if isinstance(it, PList) else it
            return flatten(sl)
        raise Unsupported("sum of symbolic list")
    r = start
    from .runtime import binop

    for x in it:
        r = binop("Add", r, x)
    return r


def flatten(sl):
    """concatenation of a symbolic list of lists: any number of elements of its lists (where no more is tracked)"""
    c = ctx()
    if not c.loose:
        raise Unsupported("flattening a symbolic list")

    def one(idx):
        root = sl.root()
        i = c.fresh("outer", z3.IntSort())
        c.assume(z3.And(i >= 0, i < root.length))
        root.note_index(i)
        v, conds = sl.any_elem(i)
        for x in conds:
            c.assume(x)
        if isinstance(v, PList) and v.sym is not None:
            return v.sym.any_elem(c.fresh("inner", z3.IntSort()))[0]
        if not isinstance(v, (list, tuple)):
            raise Unsupported("flattening a list of something else")
        if not list.__len__(v):
            raise PathEnd()
        return list(v)[c.choose(len(v), "inner")]

    one.shapes = {"any"}
    l = PList()
    l.sym = SList(c.fresh("flat", core.S).decl().name(), maker=one)
    return l


def m_any(it):
    if hasattr(it, "some"):
        return it.some(True)
    if isinstance(it, PList) and it.sym is not None:
        rs = [tb(x) for x in list.__iter__(it)]
        rs.append(tb(it.sym.exists(lambda v: mkbool(tb(v)))))
        return s_or(*[mkbool(r) for r in rs])
    if isinstance(it, SList):
        return it.exists(lambda v: mkbool(tb(v)))
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    if hasattr(it, "some"):
        return s_not(it.some(False))
    if isinstance(it, PList) and it.sym is not None:
        rs = [tb(x) for x in list.__iter__(it)]
        rs.append(tb(s_not(it.sym.exists(lambda v: s_not(mkbool(tb(v)))))))
        return s_and(*[mkbool(r) for r in rs])
    if isinstance(it, SList):
        return s_not(it.exists(lambda v: s_not(mkbool(tb(v)))))
    for x in it:
        if not x:
            return False
    return True


def m_sorted(it, **k):
    if isinstance(it, (PList, PSet)) and deep_sym(it):
        sl = it.as_slist()
        if sl is None:
            if list(it) and len(list(it)) <= 1:
                return PList(list(it))
            raise Unsupported("sorted of symbolic values")
        if not k:
            each(sl, lambda x, y: bool(x < y), 2)
        l = PList()
        l.sym = SList(f"sorted({sl.name})", maker=sl.maker if sl.parent is None else None,
                      length=sl.length, parent=sl.parent, mapf=sl.mapf, filt=sl.filt)
        ctx().approx = True
        return l
    r = PList()
    list.extend(r, sorted(it, **k))
    return r


def m_list(*a):
    from .runtime import register

    if not a:
        return register(PList(), "list()")
    x = a[0]
    if isinstance(x, (PList, PSet, PDict)) and getattr(x, "as_slist")() is not None:
        r = PList()
        if isinstance(x, PList):
            return register(x.copy(), "list()")
        r.sym = x.as_slist()
        return register(r, "list()")
    if isinstance(x, SList):
        r = PList()
        r.sym = x
        return register(r, "list()")
    if is_sym(x):
        raise Unsupported("list() of symbolic text")
    r = PList()
    list.extend(r, x)
    return register(r, "list()")


def m_tuple(*a):
    if a and (deep_sym(a[0])):
        x = a[0]
        if isinstance(x, PList) and x.sym is None:
            return tuple(list.__iter__(x))
        if isinstance(x, tuple):
            return x
        raise Unsupported("tuple() of symbolic")
    return tuple(*a)


def m_set(*a):
    from .runtime import register

    if a and is_sym(a[0]):
        raise Unsupported("set() of symbolic text")
    if a:
        each(a[0], hashable)
    return register(PSet(*a), "set()")


def m_dict(*a, **k):
    from .runtime import register

    if a and hasattr(a[0], "as_dict"):
        return a[0].as_dict()
    if a and isinstance(a[0], PList) and a[0].sym is not None:
        d = PDict()
        register(d, "dict()")
        d.base = {"name": f"dict({a[0].sym.name})", "kshapes": set(), "shapes": set()}
        sl = a[0].sym
        shapes = sl.maker.shapes if sl.maker else set()
        for s in shapes:
            if not (isinstance(s, tuple) and s[0] == "tuple" and len(s) == 3):
                raise Unsupported("dict() of a symbolic list")
            d.base["kshapes"].add(s[1])
            d.base["shapes"].add(s[2])
        if list.__len__(a[0]):
            raise Unsupported("dict() of a mixed list")
        ctx().approx = True
        return d
    if a and isinstance(a[0], LazyDict):
        return a[0]
    return register(PDict(*a, **k), "dict()")


def m_enumerate(it, start=0):
    from .runtime import sym_iter

    sl = sym_iter(it)
    if sl is None:
        return enumerate(it, start)
    if sl.has_filter():
        raise Unsupported("enumerate of filtered list")

    class _M:
        shapes = {("tuple", "int", s) for s in (sl.maker.shapes if sl.maker else ())}

        def __call__(self, idx):
            sl.note_index(idx)
            return (mknum(idx + z3val(start)), sl.elem(idx))

    r = PList()
    r.sym = SList(sl.name + "#enum", maker=_M(), length=sl.length)
    return r


def m_range(*a):
    if not any(is_sym(x) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range with step")
    l, h = z3val(lo), z3val(hi)

    class _M:
        shapes = {"int"}

        def __call__(self, idx):
            return mknum(l + idx)

    r = PList()
    r.sym = SList("range", maker=_M(), length=z3.simplify(z3.If(h > l, h - l, z3.IntVal(0))))
    return r


def m_zip(*its, **k):
    from .runtime import sym_iter

    if any(deep_sym(i) and sym_iter(i) is not None for i in its):
        raise Unsupported("zip of symbolic lists")
    return zip(*its, **k)


def m_isinstance(x, t):
    return isinstance(x, t)


def m_type(*a):
    if len(a) == 1:
        if is_sym(a[0]):
            return a[0].pytype
        if isinstance(a[0], PList):
            return list
        if isinstance(a[0], PDict):
            return dict
        if isinstance(a[0], PSet):
            return set
    return type(*a)


def m_getattr(o, n, *d):
    if not is_sym(n):
        return getattr(o, n, *d)
    for cand in dir(o):
        if bool(veq(cand, n)):
            return getattr(o, cand)
    if d:
        return d[0]
    raise AttributeError("symbolic attribute")


def m_hasattr(o, n):
    if is_sym(n):
        rs = [veq(c, n) for c in dir(o)]
        return s_or(*rs)
    return hasattr(o, n)


def m_ord(x):
    if not is_sym(x):
        return ord(x)
    if ctx().decide(z3.Length(x.e) != 1):
        raise TypeError("ord() expected a character")
    c = z3.StrToCode(x.e)
    ctx().assume(c >= 0)
    return SInt(c)


def m_chr(x):
    if is_sym(x):
        raise Unsupported("chr")
    return chr(x)


def m_repr(x):
    if deep_sym(x):
        return SStr(ctx().fresh("repr", S))
    return repr(x)


def m_next(it, *d):
    return next(it, *d)


def m_iter(x, *a):
    from .runtime import sym_iter

    if sym_iter(x) is not None:
        raise Unsupported("iter() of symbolic")
    return iter(x, *a)


def m_map(f, *its):
    from .runtime import call, comp

    if len(its) == 1:
        return comp("gen", "map", its[0], lambda x: call(f, x), None)
    return map(f, *its)


def m_filter(f, it):
    from .runtime import call, comp

    g = (lambda x: x) if f is None else (lambda x: call(f, x))
    return comp("gen", "filter", it, lambda x: x, g)


def m_reversed(x):
    if deep_sym(x) and isinstance(x, PList) and x.sym is not None:
        raise Unsupported("reversed")
    return reversed(x)


def m_round(x, *a):
    if is_sym(x):
        raise Unsupported("round")
    return round(x, *a)


def m_bytes(*a, **k):
    if any(deep_sym(x) for x in a):
        raise Unsupported("bytes()")
    return bytes(*a, **k)


TYPES = {
    int: m_int, str: m_str, float: m_float, bool: m_bool, list: m_list, tuple: m_tuple, set: m_set,
    frozenset: m_set, dict: m_dict, enumerate: m_enumerate, range: m_range, zip: m_zip, type: m_type,
    map: m_map, filter: m_filter, reversed: m_reversed, bytes: m_bytes,
}
import builtins as B

BUILTINS = {
    B.len: m_len, B.abs: m_abs, B.min: lambda *a, **k: _minmax(min, a, k),
    B.max: lambda *a, **k: _minmax(max, a, k), B.sum: m_sum, B.any: m_any, B.all: m_all,
    B.sorted: m_sorted, B.isinstance: m_isinstance, B.getattr: m_getattr, B.hasattr: m_hasattr,
    B.ord: m_ord, B.chr: m_chr, B.repr: m_repr, B.next: m_next, B.iter: m_iter, B.round: m_round,
    B.id: id, B.callable: callable,
}


# --- methods of native objects called with symbolic arguments ----------------------------------
def joined(x):
    if not isinstance(x, str):
        raise TypeError("sequence item: expected str instance")


def str_join(sep, it):
    from .runtime import sym_iter

    sl = sym_iter(it)
    if sl is not None:
        # join over a symbolic list: an unknown text that is a function of the list
        src = ctx().memo.get(("maker", sl.name)) if sl.parent is None else None
        if src is not None and src[0] == "splitlines" and type(src[1]) is SStr:
            from . import texts

            one = texts.one_line(src[1].e)
            if one is not None:
                return one
        each(sl, joined)
        with_sep = sep if not is_sym(sep) else "?"
        nm = f"join[{with_sep!r}]({sl.name})" if not sl.has_filter() and sl.parent is None else None
        out = z3.Const(nm, S) if nm else ctx().fresh("join", S)
        if not is_sym(sep):
            ctx().memo["join", out.decl().name()] = (sep, sl)
        return SStr(out)
    xs = list(it)
    if not xs:
        return ""
    terms = []
    for i, x in enumerate(xs):
        if not isinstance(x, str):
            raise TypeError("sequence item: expected str instance")
        if i:
            terms.append(z3val(sep))
        terms.append(z3val(x))
    return mkstr(terms[0] if len(terms) == 1 else z3.Concat(*terms))


def _lift(self):
    return SStr(z3val(self)) if isinstance(self, str) else SBytes(z3val(self))


def _lifted(name):
    def f(self, *a, **k):
        return getattr(_lift(self), name)(*a, **k)

    return f


def dict_get(self, k, d=None):
    hashable(k)
    for kk in self:
        if bool(veq(kk, k)):
            return self[kk]
    return d


METHODS = {
    (str, "join"): str_join,
    (dict, "get"): dict_get,
}
for _n in ("startswith", "endswith", "find", "index", "split", "partition", "count", "strip"):
    METHODS[(str, _n)] = _lifted(_n)
    METHODS[(bytes, _n)] = _lifted(_n)


def str_format(self, *a, **k):
    return SStr(ctx().fresh("format", S))


METHODS[(str, "format")] = str_format


def dict_fromkeys(it, v=None):
    if isinstance(it, PList) and it.sym is not None:
        s = PSet(it)
        class _FK(PSet):
            def as_slist(self):
                return self.sym
        return s
    d = PDict()
    for x in it:
        d[x] = v
    return d


METHODS[(dict, "fromkeys")] = dict_fromkeys


# --- regular expressions ------------------------------------------------------------------------
class SMatch:
    """A match object for a symbolic subject."""

    def __init__(self, key, s, pattern=None, flags=0):
        self.key, self.s, self.pattern, self.flags = key, s, pattern, flags

    def group(self, *idx):
        if not idx:
            idx = (0,)
        out = []
        known = relang.groups(self.pattern, self.flags) if self.pattern is not None else {}
        for i in idx:
            must, d = known.get(i, (i == 0, None))
            if not must and ctx().decide(z3.Function(f"nogroup_{i}_{self.key}", S, z3.BoolSort())(self.s.e)):
                out.append(None)
                continue
            f = z3.Function(f"group_{i}_{self.key}", S, S)
            r = f(self.s.e)
            ctx().assume(z3.Contains(self.s.e, r))
            r = SStr(r) if type(self.s) is SStr else SBytes(r)
            if d is not None and type(r) is SStr:
                ctx().assume(in_lang(r, d))
            out.append(r)
        return out[0] if len(out) == 1 else tuple(out)

    def groups(self):
        raise Unsupported("groups")

    def end(self, *a):
        f = z3.Function(f"end_{self.key}", S, z3.IntSort())
        r = f(self.s.e)
        ctx().assume(z3.And(r >= 0, r <= z3.Length(self.s.e)))
        if not a and self.key.startswith("match:") and type(self.s) is SStr:
            d = language(self.pattern, self.flags, "fullmatch")
            if d is not None:
                ctx().assume(z3.Implies(r == z3.Length(self.s.e), in_lang(self.s, d)))
        return SInt(r)

    def start(self, *a):
        f = z3.Function(f"start_{self.key}", S, z3.IntSort())
        r = f(self.s.e)
        ctx().assume(z3.And(r >= 0, r <= z3.Length(self.s.e)))
        return SInt(r)

    def __bool__(self):
        return True


RE_AXIOMS = []  # callables (kind, pattern, flags, s, pred) -> list of z3 facts


def re_pred(kind, pattern, flags, s):
    """(key of the pattern, the predicate `it matches`).

    A pattern that relang can translate is identified by the language it accepts, so differently
    written patterns for one language are one predicate, and how the languages used on a text relate
    (inclusion, disjointness, the empty text) is known."""
    flags = int(flags)
    key = f"{kind}:{flags}:{pattern}"
    if len(key) > 90:
        key = f"{kind}:{flags}:{pattern[:50]}..#" + hashlib.sha1(key.encode() if isinstance(key, str) else key).hexdigest()[:12]
    if type(s) is SStr:
        d = language(pattern, flags, kind)
        if d is not None:
            return key, in_lang(s, d)
    return key, z3.Function("re_" + key, S, z3.BoolSort())(s.e)


def language(pattern, flags, kind):
    """the automaton of a pattern (restricted to what a field value may hold, if ctx.wire), or None"""
    try:
        d = relang.lang(pattern, flags, kind)
    except relang.Refused:
        return None
    return relang.wire(d) if getattr(ctx(), "wire", False) else d


def relation(a, b):
    k = (a.key, b.key)
    if k not in RELATION:
        RELATION[k] = (relang.subset(a, b) is None, relang.subset(b, a) is None, relang.meet(a, b) is None,
                       relang.search(a, b, lambda x, y: not x and not y) is None)
    return RELATION[k]


RELATION = {}


STRIPPED = {}


def in_lang(s, d):
    c = ctx()
    if getattr(c, "derive", False) and z3.is_app(s.e) and s.e.decl().name() == "strip" and len(d.delta) <= 400:
        # such a text has no white space around it
        if d.key not in STRIPPED:
            STRIPPED[d.key] = relang.intersect(d, relang.lang(r"(?s)(?:\S(?:.*\S)?)?\Z"))
        d = STRIPPED[d.key]
    p = z3.Function("lang_" + d.key, S, z3.BoolSort())(s.e)
    simple = z3.simplify(s.e)
    used = c.memo.setdefault(("langs", core.kid(simple)), {})
    if d.key not in used:
        used[d.key] = (d, simple)
        if not d.acc:
            c.assume(z3.Not(p))
        if 0 not in d.acc:
            c.assume(z3.Implies(p, s.e != z3.StringVal("")))
        elif len(d.delta) == 1:
            c.assume(p)
        else:
            c.assume(z3.Implies(s.e == z3.StringVal(""), p))
        for x, lit in c.subst:
            if core.kid(x) == core.kid(simple) and z3.is_string_value(lit):
                literal_in(c, d, x, lit)
        if d.only() is not None:
            c.assume(p == (s.e == z3val(d.only())))
        n = d.shortest() if getattr(c, "derive", False) else None
        if n and n > 1:
            c.assume(z3.Implies(p, z3.Length(s.e) >= n))
        for k, (o, _) in used.items():
            if k == d.key:
                continue
            q = z3.Function("lang_" + k, S, z3.BoolSort())(s.e)
            sub, sup, apart, cover = relation(d, o)
            if sub:
                c.assume(z3.Implies(p, q))
            if sup:
                c.assume(z3.Implies(q, p))
            if apart:
                c.assume(z3.Not(z3.And(p, q)))
            if cover:
                c.assume(z3.Or(p, q))
        for part, (how, text, guard) in list(c.memo.get(("parts", core.kid(simple)), {}).items()):
            derive(c, p, d, how, text, guard)
    return p


def literal_in(c, d, x, lit):
    """the text x turned out to be the literal lit: whether it is in a language is known"""
    f = z3.Function("lang_" + d.key, S, z3.BoolSort())
    known = d.accepts(zstr_value(lit))
    for t in (x, lit):
        e = f(t) if known else z3.Not(f(t))
        c.solver.add(e)
        c.pc.append(e)


def derive(c, p, d, how, text, guard):
    if len(d.delta) <= 400:
        try:
            c.assume(z3.Implies(z3.And(p, *guard), in_lang(text, how(d))))
        except relang.Refused:
            pass


def part_of(s, label, r, how, guard=()):
    """r is a part of the text s: what s is known to be tells what r is (how: languages to languages)"""
    c = ctx()
    if not getattr(c, "derive", False) or type(s) is not SStr:
        return
    simple = z3.simplify(s.e)
    parts = c.memo.setdefault(("parts", core.kid(simple)), {})
    c.memo.setdefault(("alive", core.kid(simple)), simple)
    if label in parts:
        return
    text = r if type(r) is SStr else SStr(r)
    parts[label] = (how, text, guard)
    for d, _ in list(c.memo.get(("langs", core.kid(z3.simplify(s.e))), {}).values()):
        derive(c, z3.Function("lang_" + d.key, S, z3.BoolSort())(s.e), d, how, text, guard)


def re_match(pattern, s, flags=0, kind="match"):
    if is_sym(pattern):
        raise Unsupported("symbolic pattern")
    if isinstance(pattern, re.Pattern):
        flags = pattern.flags
        pattern = pattern.pattern
    if not isinstance(s, SText) or not is_sym(s):
        if not is_sym(s):
            return getattr(re, kind)(pattern, s, flags)
        raise TypeError("expected string or bytes-like object")
    ctx().patterns.add((kind, pattern, int(flags)))
    key, p = re_pred(kind, pattern, flags, s)
    for ax in RE_AXIOMS:
        for f in ax(kind, pattern, flags, s, p):
            ctx().assume(f)
    if ctx().decide(p):
        return SMatch(key, s, pattern, flags)
    return None


def re_findall(pattern, s, flags=0):
    if not is_sym(s):
        return re.findall(pattern, s, flags)
    import sre_parse

    groups = re.compile(pattern, flags).groups
    ctx().patterns.add(("findall", pattern, int(flags)))
    nm = f"findall:{int(flags)}:{pattern}({s.e.sexpr()})"
    sh = "str" if groups <= 1 else ("tuple",) + ("str",) * groups
    l = PList()
    key = ("findall", nm)
    c = ctx()
    if key not in c.memo:
        c.memo[key] = SList(nm, maker=Maker(nm, {sh}))
    l.sym = c.memo[key]
    return l


def re_sub(pattern, repl, s, count=0, flags=0):
    if deep_sym(repl) or not isinstance(repl, str) and not callable(repl):
        raise Unsupported("re.sub replacement")
    if not is_sym(s):
        if callable(repl) and not isinstance(repl, str):
            return sub_with(pattern, repl, s, count, flags)
        return re.sub(pattern, repl, s, count, flags)
    if not isinstance(repl, str):
        raise Unsupported("re.sub with a function on a symbolic text")
    ctx().patterns.add(("findall", getattr(pattern, "pattern", pattern), int(flags) | getattr(pattern, "flags", 0)))
    f = z3.Function(f"sub_{pattern!r}_{repl!r}_{count}_{int(flags)}", S, S)
    ctx().memo[f.name()] = (pattern if isinstance(pattern, str) else pattern.pattern, repl, int(flags))
    return SStr(f(s.e))


def sub_with(pattern, repl, s, count=0, flags=0):
    """re.sub with a function, on a concrete text"""
    from .runtime import call

    out, at, n = [], 0, 0
    for m in re.finditer(pattern, s, flags):
        if count and n >= count:
            break
        n += 1
        out += [s[at:m.start()], call(repl, m)]
        at = m.end()
    return str_join("", [x for x in out + [s[at:]] if is_sym(x) or x != ""])


def re_split(pattern, s, maxsplit=0, flags=0):
    ctx().patterns.add(("findall", getattr(pattern, "pattern", pattern), int(flags) | getattr(pattern, "flags", 0)))
    nm = f"resplit:{int(flags)}:{pattern}:{maxsplit}({s.e.sexpr()})"
    l = PList()
    l.sym = SList(nm, maker=Maker(nm, {"str"}), minlen=1)
    return l


def _fresh_text(label):
    def f(*a, **k):
        ctx().approx = True
        return SStr(ctx().fresh(label, S))

    return f


def keyed_text(label):
    def f(s, *a, **k):
        extra = "".join(f"_{x!r}" for x in a) + "".join(f"_{n}{v!r}" for n, v in sorted(k.items()))
        return SStr(z3.Function(f"{label}{extra}", S, S)(z3val(s)))

    return f


def m_timegm(t):
    # trusted: calendar.timegm is total on integer tuples whose date part is in range; it raises
    # (ValueError/OverflowError) only for years outside 1..9999 or months outside 1..12
    ts = []
    for x in (t if isinstance(t, tuple) else tuple(t)):
        ts.append(x)
    y, mo = ts[0], ts[1]
    bad = z3.Or(z3val(y) < 1, z3val(y) > 9999, z3val(mo) < 1, z3val(mo) > 12)
    if ctx().decide(bad):
        raise ValueError("year or month out of range")
    f = z3.Function("timegm", *([z3.IntSort()] * 7))
    return SInt(f(*[z3val(x) for x in ts[:6]]))


def m_urlsplit(s, *a, **k):
    ok = z3.Function("urlsplit_ok", S, z3.BoolSort())(s.e)
    if not ctx().decide(ok):
        raise ValueError("Invalid URL")
    return SUrl(s)


class SUrl:
    def __init__(self, s):
        self.s = s

    def _p(self, n):
        return mkstr(z3.Function(f"url_{n}", S, S)(self.s.e))

    @property
    def scheme(self):
        return self._p("scheme")

    @property
    def netloc(self):
        return self._p("netloc")

    @property
    def path(self):
        return self._p("path")

    @property
    def query(self):
        return self._p("query")

    @property
    def fragment(self):
        return self._p("fragment")

    @property
    def hostname(self):
        if ctx().decide(z3.Function("url_has_host", S, z3.BoolSort())(self.s.e)):
            return self._p("hostname")
        return None

    @property
    def port(self):
        if not ctx().decide(z3.Function("url_port_ok", S, z3.BoolSort())(self.s.e)):
            raise ValueError("Port out of range")
        if ctx().decide(z3.Function("url_has_port", S, z3.BoolSort())(self.s.e)):
            p = z3.Function("url_port", S, z3.IntSort())(self.s.e)
            ctx().assume(z3.And(p >= 0, p <= 65535))
            return SInt(p)
        return None

    @property
    def username(self):
        return None

    password = username

    def __iter__(self):
        return iter((self.scheme, self.netloc, self.path, self.query, self.fragment))


def m_copy(x):
    raise Unsupported("copy")


def m_format_string(f, v, *a, **k):
    # locale.format_string("%d", n, grouping=True): a text that is a function of the number
    return SStr(z3.Function(f"locale_{f}", z3.IntSort(), S)(z3val(v)))


def _hex(b):
    if type(b) is core.SView:
        r = core.ctx().fresh("hex", S)
    else:
        r = z3.Function("hex", S, S)(b.e)
    ctx().axiom(("hex", core.kid(r)), lambda: [z3.Function("is_ascii", S, z3.BoolSort())(r)])
    return SBytes(r)


EXTERNALS = {
    "binascii.b2a_hex": _hex,
    "binascii.hexlify": _hex,
    "re.match": re_match,
    "re.fullmatch": lambda p, s, flags=0: re_match(p, s, flags, "fullmatch"),
    "re.search": lambda p, s, flags=0: re_match(p, s, flags, "search"),
    "re.findall": re_findall,
    "re.sub": re_sub,
    "re.split": re_split,
    "urllib.parse.unquote": keyed_text("unquote"),
    "urllib.parse.quote": keyed_text("quote"),
    "urllib.parse.urlsplit": m_urlsplit,
    "urllib.parse.urlparse": m_urlsplit,
    "calendar.timegm": m_timegm,
    "locale.format_string": m_format_string,
    "html.escape": keyed_text("html_escape"),
}


# compiled patterns
for _k in ("match", "search", "fullmatch"):
    METHODS[(re.Pattern, _k)] = lambda self, s, _k=_k: re_match(self, s, 0, _k)
METHODS[(re.Pattern, "findall")] = lambda self, s: re_findall(self.pattern, s, self.flags)
METHODS[(re.Pattern, "sub")] = lambda self, repl, s, count=0: re_sub(self.pattern, repl, s, count, self.flags)
METHODS[(re.Pattern, "split")] = lambda self, s, maxsplit=0: re_split(self.pattern, s, maxsplit, self.flags)
