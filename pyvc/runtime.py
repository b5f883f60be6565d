"""Runtime the instrumented code calls into."""
from __future__ import annotations

import sys
import types
from functools import partial

import hashlib
import re

import z3

from . import core
from .core import (
    Budget, Infeasible, Opaque, OPTS, PathEnd, Poison, SOpt, unopt, SBool, SBytes, SInt, SReal, SStr, SText, Sym,
    Unsupported, is_sym, mkbool, s_and, mknum, mkstr, tb, z3val, S,
)
from .containers import (
    LazyDict, Maker, PDict, PList, PSet, SList, deep_sym, fresh_of, hashable, shape_of, veq, _fresh1,
)

STAR = object()
slice = slice


def _c():
    return core.CTX


# --- allocation and frames -------------------------------------------------------------------
def register(obj, name):
    c = _c()
    if c is None:
        return obj
    n = c.alloc_n.get(name, 0)
    c.alloc_n[name] = n + 1
    c.heap.append((obj, f"{name}/{n}"))
    if isinstance(obj, (PList, PSet, PDict)):
        obj.pv_name = f"{name}/{n}"
    return obj


def heap_index(c, obj):
    for i, (o, nm) in enumerate(c.heap):
        if o is obj:
            return i, nm
    return None, None


def touched(obj, attr=None):
    c = _c()
    if c is None or not c.loops_active:
        return
    for g in c.loops_active:
        g.touch(obj, attr)


def mklist(site, native):
    if _c() is None:
        return native
    r = PList()
    list.extend(r, native)
    return register(r, site)


def mkset(site, items):
    if _c() is None:
        return set(items)
    return register(PSet(items), site)


def mkdict(site, items):
    if _c() is None:
        d = {}
        for k, v in items:
            if k is STAR:
                d.update(v)
            else:
                d[k] = v
        return d
    d = PDict()
    register(d, site)
    for k, v in items:
        if k is STAR:
            if isinstance(v, LazyDict) or isinstance(v, PDict) and v.is_symbolic():
                raise Unsupported("** of symbolic dict")
            for kk in v:
                d[kk] = v[kk]
        else:
            d[k] = v
    return d


def setattr(obj, name, val):  # pylint: disable=redefined-builtin
    if _c() is not None:
        touched(obj, name)
    object.__setattr__(obj, name, val) if isinstance(obj, type) is False and type(
        obj).__setattr__ is object.__setattr__ else types_setattr(obj, name, val)


def types_setattr(obj, name, val):
    import builtins

    builtins.setattr(obj, name, val)


def setitem(o, k, v):
    if isinstance(o, (PList, PDict)) or _c() is None or getattr(o, "pv_model", False):
        o[k] = v
        return
    touched(o)
    if deep_sym(k):
        raise Unsupported("store with a symbolic key into a native container")
    o[k] = v


def getitem(o, k):
    if _c() is None:
        return o[k]
    o, k = unopt(o), unopt(k)
    if not is_sym(o) and getattr(o, "pv_model", False):
        return o[k]
    if type(o) is core.SView or isinstance(o, (SText, PList, PDict, SList, LazyDict)) and (is_sym(o) or not isinstance(o, Sym)):
        return o.getitem(k)
    ks = is_sym(k) or (isinstance(k, slice) and any(is_sym(x) for x in (k.start, k.stop, k.step)))
    if not ks:
        r = o[k]
        return r
    if isinstance(o, (str, bytes)):
        w = SStr(z3val(o)) if isinstance(o, str) else SBytes(z3val(o))
        return w.getitem(k)
    if type(o) in (SInt, SReal, SBool):
        raise TypeError(f"'{o.pytype.__name__}' object is not subscriptable")
    if isinstance(o, (list, tuple)):
        if isinstance(k, (SText, SReal)):
            raise TypeError("indices must be integers or slices")
        if isinstance(k, slice):
            raise Unsupported("symbolic slice of a native sequence")
        n = len(o)
        for i in range(n):
            if _c().decide(z3.Or(k.e == i, k.e == i - n)):
                return o[i]
        raise IndexError("index out of range")
    if isinstance(o, dict):
        for kk in o:
            if bool(veq(kk, k)):
                return o[kk]
        raise KeyError("symbolic")
    if isinstance(o, type):
        return o[k]
    raise Unsupported(f"subscript of {type(o).__name__}")


def in_(x, y):
    if _c() is None:
        return x in y
    y = unopt(y)
    if isinstance(y, str):
        x = unopt(x)
    if isinstance(y, (SList, PList, PSet, PDict, LazyDict)):
        return y.scontains(x)
    if not is_sym(y) and getattr(y, "pv_model", False):
        return x in y
    if is_sym(y):
        if isinstance(y, SText):
            return y.scontains(x)
        if type(y) in (SInt, SReal, SBool):
            raise TypeError(f"argument of type '{y.pytype.__name__}' is not iterable")
        raise Unsupported("in")
    if isinstance(y, (set, frozenset, dict)):
        hashable(x)
    if is_sym(x) or deep_sym(x):
        if isinstance(y, str):
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left operand")
            return mkbool(z3.Contains(z3val(y), x.e))
        if isinstance(y, (list, tuple, set, frozenset, dict)) or hasattr(y, "__iter__"):
            rs = [veq(v, x) for v in list(y)]
            return core.s_or(*rs) if rs else False
        raise Unsupported("in")
    if isinstance(y, (list, tuple)) and deep_sym(y):
        rs = [veq(v, x) for v in y]
        return core.s_or(*rs) if rs else False
    return x in y


def notin(x, y):
    r = in_(x, y)
    return core.s_not(r) if is_sym(r) else not r


def is_(a, b):
    if is_sym(a):
        if b is None:
            if type(a) is core.SDyn:
                return a.narrow(lambda t: t is type(None))
            return mkbool(a.none) if type(a) in OPTS else False
        a = unopt(a)
        if type(a) is core.SEnum:
            return a.is_(b)
        if type(a) is SBool and isinstance(b, bool):
            return mkbool(a.e == tb(b))
        if is_sym(a) and is_sym(b):
            return a is b
        if not is_sym(a):
            return a is b
        return False
    if type(b) is core.SEnum:
        return b.is_(a)
    return a is b


def eq(a, b):
    if _c() is None:
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return veq(a, b)
    if is_sym(b) and not is_sym(a):
        return b == a
    return a == b


def ne(a, b):
    if _c() is None:
        return a != b
    r = eq(a, b)
    return core.s_not(r) if is_sym(r) else not r


def binop(op, a, b):
    if _c() is None:
        return a + b if op == "Add" else a % b if op == "Mod" else a * b
    a, b = unopt(a), unopt(b)
    if op == "Mod" and isinstance(a, (str, bytes)):
        if is_sym(a) or deep_sym(b):
            return fmt_percent(a, b)
        return a % b
    if op == "Add":
        if isinstance(a, list) and isinstance(b, list):
            if isinstance(a, PList):
                return a + b
            if isinstance(b, PList):
                r = PList()
                list.extend(r, a)
                return r + b
        return a + b
    if op == "Mult":
        for s, n in ((a, b), (b, a)):
            if isinstance(s, (str, bytes)) and type(n) is SInt:
                L = s.slen() if is_sym(s) else len(s)
                r = SStr(_c().fresh("rep", S)) if isinstance(s, str) else SBytes(_c().fresh("rep", S))
                _c().assume(z3.Length(r.e) == z3.If(n.e > 0, n.e * z3val(L), z3.IntVal(0)))
                if isinstance(s, str) and not is_sym(s):
                    _c().memo["upper", r.e.decl().name()] = f"(?:{re.escape(s)})*"
                return r
        return a * b
    return a % b


def aug(op, a, b):
    if op in ("Add", "Mod", "Mult"):
        if op == "Add" and isinstance(a, PList):
            a.extend(b)
            return a
        if _c() is None and op == "Add":
            a += b
            return a
        return binop(op, a, b)
    if op == "Sub":
        a -= b
        return a
    if op == "BitOr":
        if isinstance(a, PSet):
            a.update(b)
            return a
        a |= b
        return a
    if op == "BitAnd":
        a &= b
        return a
    if op == "FloorDiv":
        return a // b
    if op == "Div":
        return a / b
    if op == "LShift":
        return a << b
    if op == "RShift":
        return a >> b
    if op == "BitXor":
        return a ^ b
    if op == "Pow":
        return a**b
    raise Unsupported(op)


def to_text(v, conv=-1, spec=None):
    """z3 string term for str(v)/format(v)"""
    v = unopt(v)
    if spec:
        if deep_sym(v) or is_sym(spec):
            return _c().fresh("formatted", S)
        return z3val(format(v, spec))
    if conv == 114:
        if deep_sym(v):
            return _c().fresh("repr", S)
        return z3val(repr(v))
    if isinstance(v, SStr):
        return v.e
    if type(v) is SInt:
        return core._str_of_int(v.e)
    if deep_sym(v) or isinstance(v, BaseException) and deep_sym(v.args):
        return _c().fresh("text", S)
    return z3val(str(v))


def fstr(*parts):
    if _c() is None or not any(
        isinstance(p, tuple) and (deep_sym(p[0]) or is_sym(p[2])
                                  or isinstance(p[0], BaseException) and deep_sym(p[0].args)) for p in parts
    ):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec or ""))
            else:
                out.append(p)
        return "".join(out)
    terms = []
    for p in parts:
        terms.append(to_text(*p) if isinstance(p, tuple) else z3val(p))
    return mkstr(terms[0] if len(terms) == 1 else z3.Concat(*terms))


def fmt_percent(a, b):
    if is_sym(a):
        raise Unsupported("symbolic format string")
    if isinstance(a, str):
        r = percent(a, b)
        if r is not None:
            return r
    _c().approx = True
    return SStr(_c().fresh("percent", S))


def percent(template, vals):
    """template % vals, for conversions %s, %d of integers, %(name)s and %%; None for others"""
    named = isinstance(vals, dict)
    args = list(vals) if isinstance(vals, tuple) else [vals]
    terms, at, used = [], 0, 0
    for m in re.finditer(r"%(?:\(([^()]*)\))?(.)?", template, re.S):
        lit = template[at:m.start()]
        if lit:
            terms.append(z3val(lit))
        at = m.end()
        name, conv = m.group(1), m.group(2)
        if conv == "%" and name is None:
            terms.append(z3val("%"))
            continue
        if conv is None:
            raise ValueError("incomplete format")
        if conv not in "sd":
            return None
        if name is not None:
            if not named:
                raise TypeError("format requires a mapping")
            if getattr(vals, "is_symbolic", lambda: False)():
                return None
            v = dict.__getitem__(vals, name) if dict.__contains__(vals, name) else vals[name]
        else:
            if used >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[used]
            used += 1
        v = unopt(v)
        if conv == "d":
            if isinstance(v, (str, bytes)) or v is None:
                raise TypeError("%d format: a real number is required")
            if type(v) not in (SInt, int):
                return None
        terms.append(to_text(v))
    if not named and used < len(args):
        raise TypeError("not all arguments converted during string formatting")
    if template[at:]:
        terms.append(z3val(template[at:]))
    if not terms:
        return ""
    return mkstr(terms[0] if len(terms) == 1 else z3.Concat(*terms))


def unpack(v, n):
    v = unopt(v)
    if isinstance(v, tuple):
        if len(v) != n:
            raise ValueError("unpack")
        return v
    if isinstance(v, PList) and v.sym is not None or isinstance(v, SList):
        L = v.slen()
        if _c().decide(z3val(L) != n):
            raise ValueError("not enough or too many values to unpack")
        return tuple(v.getitem(i) for i in range(n))
    if isinstance(v, PList):
        if list.__len__(v) != n:
            raise ValueError("not enough or too many values to unpack")
        return tuple(list.__iter__(v))
    if is_sym(v):
        if isinstance(v, SText):
            raise Unsupported("unpack of symbolic text")
        raise TypeError("cannot unpack non-iterable")
    t = tuple(v)
    if len(t) != n:
        raise ValueError("not enough or too many values to unpack")
    return t


def sym_iter(it):
    """an SList for a symbolic iterable, or None when it can be iterated natively"""
    it = unopt(it)
    if isinstance(it, SList):
        return it
    if isinstance(it, (PList, PSet, PDict)):
        return it.as_slist()
    if type(it) is SStr:
        src = it
        class _M:
            shapes = {"str"}
            def __call__(self, idx):
                return SStr(z3.SubString(src.e, idx, 1))
        return SList("chars", maker=_M(), length=z3.Length(it.e))
    if type(it) is SBytes:
        src = it
        class _B:
            shapes = {"int"}
            def __call__(self, idx):
                code = z3.StrToCode(z3.SubString(src.e, idx, 1))
                return SInt(code)
        return SList("bytes", maker=_B(), length=z3.Length(it.e))
    if isinstance(it, LazyDict):
        raise Unsupported("iteration over a lazily known dict")
    if is_sym(it):
        if type(it) in (SInt, SReal, SBool):
            raise TypeError("object is not iterable")
        raise Unsupported("iteration")
    return None


class ByteGen:
    """a generator over the bytes of a symbolic byte string, each of its elements a function of one byte"""

    def __init__(self, text, elt, cond):
        self.text, self.elt, self.cond = text, elt, cond

    def some(self, want):
        """whether the element of some byte is (as a truth value) `want`"""
        mask = frozenset(b for b in range(256) if (self.cond is None or self.cond(b)) and bool(self.elt(b)) == want)
        e = self.text.e
        if not mask:
            return False
        if mask == frozenset(range(128, 256)):
            return mkbool(z3.Not(z3.Function("is_ascii", S, z3.BoolSort())(e)))
        r = z3.Function("some_byte_" + hashlib.sha1(repr(sorted(mask)).encode()).hexdigest()[:10], S, z3.BoolSort())(e)
        if len(mask) == 256:
            return mkbool(e != z3.StringVal(""))
        _c().axiom(("some_byte", core.kid(r)), lambda: [z3.Implies(r, e != z3.StringVal(""))])
        return mkbool(r)


def comp(kind, site, it, elt, cond):
    c = _c()
    if c is not None and kind == "gen" and type(it) is SBytes:
        return ByteGen(it, elt, cond)
    sl = sym_iter(it) if c is not None else None
    if sl is None:
        src = it
        if kind == "gen":
            if cond is None:
                return (elt(x) for x in src)
            return (elt(x) for x in src if cond(x))
        if kind == "list":
            r = [elt(x) for x in src if cond is None or cond(x)]
            return mklist(site, r)
        if kind == "set":
            r = [elt(x) for x in src if cond is None or cond(x)]
            return mkset(site, r)
        return mkdict(site, [elt(x) for x in src if cond is None or cond(x)])
    if c.loose or c.elements:
        # element expressions must not raise: a path of its own evaluates them on any element
        if not c.choose(2, "the rest"):
            root = sl.root()
            idx = c.fresh("element", z3.IntSort())
            c.assume(z3.And(idx >= 0, idx < root.length))
            root.note_index(idx)
            v, conds = sl.any_elem(idx)
            if all(c.decide(x) for x in conds) and (cond is None or cond(v)):
                elt(v)
            raise PathEnd()
    r = sl.map(elt, cond)
    if kind in ("list", "gen"):
        l = PList()
        l.sym = r
        return register(l, site) if kind == "list" else l
    if kind == "set":
        s = PSet()
        s.sym = r
        return register(s, site)
    raise Unsupported("dict comprehension over a symbolic list")


# --- loops -----------------------------------------------------------------------------------
class NativeFor:
    sym = False

    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self.it


class LoopSpec:
    """Invariant of one loop.

    inv(view) returns a list of (clause, condition); view gives locals by name (view['x']),
    view.k (number of completed iterations), view.seq (the sequence, for loops).
    havoc(view, name) may return a fresh value for an assigned local, or None for the default.
    frame(view): heap objects to forget: list of (obj, callable) where callable() re-initialises.
    """

    def __init__(self, inv=None, havoc=None, frame=None, begin=None, end=None, collect=None, emit=None, none=(), soft=False):
        inv = inv or (lambda v: [])
        self.inv, self.havoc, self.frame = inv, havoc, frame
        self.begin, self.end = begin, end
        # collect(elem) -> list of values: what each iteration appends to any list it appends to; on
        # exit such a list carries .collected = the sequence looped over
        self.collect = collect
        # emit(elem, recs) -> condition: what the notes added by an iteration must be, if the loop adds
        # notes at all; on exit an Emitted marker with the sequence joins the trace
        self.emit = emit
        # none: predicates; those shown not to hold of any completed iteration's element are known
        # of the whole sequence on exit (the others are dropped)
        self.none = list(none)
        # soft: an invariant that does not hold on entry says that the loop is another one than the
        # invariant was written for
        self.soft = soft


class Emitted:
    def __init__(self, lid, seq, tag=None):
        self.lid, self.seq, self.tag = lid, seq, tag


class View(dict):
    k = None
    seq = None
    elem = None
    state = None
    trace = ()

    def __missing__(self, n):
        raise Unsupported(f"loop invariant needs local '{n}', which does not exist")


class Cut:
    """Common part of loop cuts."""

    sym = True

    def __init__(self, lid, names, loc, seq):
        c = self.c = _c()
        self.lid, self.names, self.seq = lid, names, seq
        self.spec = c.loop_specs.get(lid)
        if self.spec is None and seq is None and "while*" in c.loop_specs:
            self.spec = c.loop_specs["while*"](lid, loc)
        elif self.spec is None and seq is not None and "*" in c.loop_specs:
            self.spec = c.loop_specs["*"](lid, seq, loc)
        c.cut_loops = getattr(c, "cut_loops", set()) | {lid}
        self.touched = {}
        self.collecting = []
        self.start = len(c.heap)
        c.approx = True
        self.trace0 = len(c.trace)
        self.lost0 = c.trace_lost
        shapes = c.loop_shapes.setdefault(lid, {})
        for n in names:
            if n in loc:
                shapes.setdefault(n, set()).add(self._shape(loc[n]))
        self.vals = {}
        self.state = {}
        if self.spec is not None:
            v = self.view(loc, z3.IntVal(0))
            for clause, cond in self.spec.inv(v):
                if self.spec.soft and cond is not True and (not is_sym(cond) or c.feasible(z3.Not(tb(cond)))):
                    raise Unsupported(f"{lid} is not the loop the invariant is for: {clause}")
                c.prove(cond, f"{lid}: invariant holds on entry: {clause}")
        # forget
        self.entry = {n: loc[n] for n in names if n in loc}
        self.kept = set()
        for n in names:
            val = None
            if n in loc and n not in c.loop_changed.get(lid, ()) and not isinstance(loc[n], Poison):
                self.vals[n] = loc[n]
                self.kept.add(n)
                continue
            if self.spec is not None and self.spec.havoc is not None:
                val = self.spec.havoc(self.view(loc, None), n)
            if val is None:
                val = self._fresh(shapes.get(n, set()), f"{n}@{lid.split('.')[-1]}")
            self.vals[n] = val
        if self.spec is not None and self.spec.frame is not None:
            self.framed = self.spec.frame(self.view(loc, None))
            for o, attr, f in self.framed:
                f()
                touched(o, attr)
        else:
            self.framed = []
        heap = c.loop_heap.setdefault(lid, {})
        for o, nm in list(c.heap):
            for key, sh in heap.items():
                if key[0] == nm:
                    if key[1] is None:
                        if self.spec is not None and self.spec.collect is not None and isinstance(o, PList):
                            if o.sym is not None or list.__len__(o):
                                raise Unsupported(f"{lid}: a list that is collected into starts non-empty")
                            self.collecting.append(o)
                            o.collected = seq
                        o.havoc(self._content_shapes(o) | sh, f"{nm}@{lid.split('.')[-1]}")
                        touched(o)  # an outer loop's iteration changes it too
                    else:
                        cur = getattr(o, key[1], None)
                        sh2 = set(sh) | {self._shape(cur)}
                        fv = self._fresh(sh2, f"{nm}.{key[1]}")
                        types_setattr(o, key[1], fv)
                        touched(o, key[1])
        self.k = c.fresh(f"k_{lid}", z3.IntSort())
        c.assume(self.k >= 0)
        if seq is not None:
            c.assume(self.k <= seq.length)
        if seq is None and c.variants is not None:
            self.before = self.places({**loc, **self.vals})
        if self.spec is not None:
            loc2 = dict(loc)
            loc2.update(self.vals)
            for clause, cond in self.spec.inv(self.view(loc2, self.k)):
                c.assume(cond if is_sym(cond) or isinstance(cond, bool) else cond)

    def _content_shapes(self, o):
        if isinstance(o, PList):
            s = shape_of(o)
            return set(s[1])
        if isinstance(o, PSet):
            s = {shape_of(x) for x in list(set.__iter__(o)) + o.items}
            if o.sym is not None:
                s |= o.sym.maker.shapes
            return s
        if isinstance(o, PDict) and not o.is_symbolic() and not o.shrunk:
            return {("kvc", k, shape_of(dict.__getitem__(o, k))) for k in dict.__iter__(o)}
        if isinstance(o, PDict):
            s = {("kv", shape_of(k), shape_of(v)) for k, v in o.writes}
            s |= {("kv", shape_of(k), shape_of(dict.__getitem__(o, k))) for k in dict.__iter__(o)}
            if o.base is not None:
                s |= {("kv", a, b) for a in o.base["kshapes"] for b in o.base["shapes"]}
            return s
        raise Unsupported("content of " + type(o).__name__)

    @staticmethod
    def _shape(v):
        if isinstance(v, Poison):
            return ("poison",)
        if isinstance(v, (PSet, PDict, LazyDict, SList)):
            return ("obj", id(v))
        return shape_of(v)

    @staticmethod
    def _fresh(shapes, name):
        ok = shapes and all(_freshable(s) for s in shapes)
        if not ok:
            return Poison()
        return fresh_of(shapes, name)

    def view(self, loc, k):
        v = View({n: x for n, x in loc.items() if not n.startswith("pv__")})
        v.k = mknum(k) if k is not None else None
        v.seq = self.seq
        v.state = self.state
        return v

    def get(self, n):
        return self.vals[n]

    def touch(self, obj, attr):
        i, nm = heap_index(self.c, obj)
        if i is not None and i >= self.start:
            return  # made during this iteration
        if isinstance(obj, types.ModuleType):
            raise Unsupported("module state changed in a loop")
        for o, a, _ in self.framed:
            if o is obj and (a is None or a == attr):
                return
        if nm is None:
            key = (id(obj), attr)
            self.touched[key] = (obj, None, attr)
        else:
            self.touched[(nm, attr)] = (obj, nm, attr)

    def places(self, loc):
        """what an iteration may change: locals, and attributes of the objects that are known"""
        out = {n: loc[n] for n in loc if not n.startswith("pv__")}
        for (nm, attr) in self.c.loop_heap.get(self.lid, {}):
            for o, name in self.c.heap:
                if name == nm and attr is not None:
                    out[f"{nm}.{attr}"] = getattr(o, attr, None)
        for o, attr, _ in self.framed:
            if attr is not None:
                out[f"{id(o)}.{attr}"] = getattr(o, attr, None)
        return out

    def variant(self, loc):
        """keeps the measures that each iteration of a while loop makes smaller: the length of a text, a number that falls
        and is not negative, or one that grows up to a bound (a fixed one, or the length of a text that stays as it is)"""
        c = self.c
        now, before = self.places(loc), self.before
        found = {}
        text = lambda x: isinstance(x, (str, bytes, core.SText, core.SView))  # noqa: E731
        num = lambda x: isinstance(x, (int, core.SInt)) and not isinstance(x, bool)  # noqa: E731
        size = lambda x: x.slen() if is_sym(x) else len(x)  # noqa: E731
        fixed = [(n, x) for n, x in now.items() if text(x) and before.get(n) is x]
        for n, x in now.items():
            y = before.get(n)
            if y is x or y is None:
                continue
            if text(x) and text(y):
                found[f"the length of {n}"] = lambda x=x, y=y: size(x) < size(y)
            elif num(x) and num(y):
                found[f"the number {n}"] = lambda x=x, y=y: core.s_and(x < y, y >= 0)
                found[f"the distance of {n} from a bound"] = lambda x=x, y=y: core.s_and(y < x, x <= 2 ** 62)
                for m, t in fixed:
                    found[f"the distance of {n} from the length of {m}"] = lambda x=x, y=y, t=t: core.s_and(y < x, y <= size(t))
        old = c.variants.get(self.lid)  # the measure that the iterations so far make smaller
        failed = c.variants.setdefault(("no", self.lid), set())
        for hard in (False, True):
            c.solver.set("timeout", c.proof_ms if hard else c.feas_ms)
            if hard and not c.use_deep():
                break
            for k in [old] if old in found else sorted(found):
                if k in failed:
                    continue
                e = found[k]()
                if e is True or is_sym(e) and c._check(z3.Not(tb(e))) == z3.unsat:
                    c.variants[self.lid] = k
                    c.solver.set("timeout", c.feas_ms)
                    return
        c.solver.set("timeout", c.feas_ms)
        if old is None:
            c.variants[self.lid] = ""
        elif old:  # earlier iterations were not tried with the others
            failed.add(old)
            del c.variants[self.lid]
            c.restart = True
            raise PathEnd()

    def leave(self):
        """the loop's exit path: what its iterations recorded is known only to its contract"""
        c = self.c
        if self.lid in c.trace_loops:
            c.trace_lost = self.lid

    def finished(self):
        c = self.c
        if self.spec is None:
            return
        if self.lid in c.loop_emits:
            c.trace.append(Emitted(self.lid, self.seq, self.spec))
        if self.seq is not None:
            for i, p in enumerate(self.spec.none):
                if (self.lid, i) not in c.loop_dropped:
                    c.assume(tb(core.s_not(self.seq.exists(p))))

    def finish_iteration(self, loc):
        c = self.c
        changed = c.loop_changed.setdefault(self.lid, set())
        diff = {n for n in self.kept if n not in loc or not unchanged(self.entry[n], loc[n])}
        if diff:
            changed |= diff
            c.restart = True
            raise PathEnd()
        emit = self.spec is not None and self.spec.emit is not None
        if emit and len(c.trace) > self.trace0 and self.lid not in c.loop_emits:
            c.loop_emits.add(self.lid)
            c.restart = True
            raise PathEnd()
        if c.trace_lost not in (self.lost0, self.lid):
            # a loop inside this one adds notes
            if emit or self.spec is not None and self.spec.end is not None:
                raise Unsupported(f"notes added by loop {c.trace_lost} inside {self.lid}")
            if self.lid not in c.trace_loops:
                c.trace_loops.add(self.lid)
                c.restart = True
                raise PathEnd()
        if len(c.trace) > self.trace0 and not emit and (self.spec is None or self.spec.end is None) and (
                self.lid not in c.trace_loops):
            c.trace_loops.add(self.lid)
            c.restart = True
            raise PathEnd()
        shapes = c.loop_shapes[self.lid]
        new = False
        for n in self.names:
            if n in loc:
                sh = self._shape(loc[n])
                if sh == ("poison",):
                    continue
                if sh not in shapes.setdefault(n, set()):
                    if self.spec is not None and self.spec.havoc is not None and self.spec.havoc(
                            self.view(loc, None), n) is not None:
                        continue
                    if not _freshable(sh):
                        sh = ("opaque",)
                        if sh in shapes[n]:
                            continue
                    shapes[n].add(sh)
                    new = True
        heap = c.loop_heap[self.lid]
        for obj, nm, attr in self.touched.values():
            if nm is None:
                raise Unsupported(f"{self.lid}: loop changes an unregistered object "
                                  f"({type(obj).__name__}.{attr})")
            if attr is None:
                sh = self._content_shapes(obj)
            else:
                sh = {self._shape(getattr(obj, attr))}
                if not all(_freshable(s) for s in sh):
                    raise Unsupported(f"{self.lid}: loop stores an object in .{attr}")
            old = heap.get((nm, attr))
            if old is None or not sh <= old:
                heap[(nm, attr)] = (old or set()) | sh
                new = True
        if new:
            c.restart = True
            raise PathEnd()
        if self.seq is None and c.variants is not None:
            self.variant(loc)
        if self.spec is not None:
            v = self.view(loc, self.k + 1)
            v.elem = getattr(self, "elem", None)
            v.trace = c.trace[self.trace0:]
            if self.spec.end is not None:
                self.spec.end(v)
            if self.lid in c.loop_emits:
                c.prove(self.spec.emit(v.elem, v.trace),
                        f"{self.lid}: each iteration adds exactly the notes specified", info=lambda: str(v.trace))
            for i, p in enumerate(self.spec.none):
                if (self.lid, i) not in c.loop_dropped:
                    e = tb(core.s_not(p(v.elem)))
                    if c.feasible(z3.Not(e)):
                        c.loop_dropped.add((self.lid, i))
                        c.restart = True
                        raise PathEnd()
                    c.prove(mkbool(e), f"{self.lid}: no completed iteration had an element of the kind searched")
            for o in self.collecting:
                want = self.spec.collect(v.elem)
                got = list(list.__iter__(o))
                c.prove(len(got) == len(want) and s_and(*[same(a, b) for a, b in zip(got, want)]),
                        f"{self.lid}: each iteration collects exactly what is specified",
                        info=lambda: f"got {got}, expected {want}")
            for clause, cond in self.spec.inv(v):
                c.prove(cond, f"{self.lid}: invariant is preserved: {clause}")
        c.cover(f"{self.lid}: iteration")
        raise PathEnd()


def unchanged(a, b):
    if a is b:
        return True
    if type(a) is core.SView and type(b) is core.SView:
        return a.name == b.name and a.a.eq(b.a) and a.b.eq(b.b)
    if is_sym(a) or is_sym(b):
        return type(a) is type(b) and type(a) not in OPTS and a.e.eq(b.e)
    return type(a) is type(b) and isinstance(a, (int, str, bytes, bool, float)) and a == b


def same(a, b):
    """structural equality, None included (an undecided value)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and s_and(*[same(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return is_(a, b)
    return veq(a, b)


def _freshable(s):
    if isinstance(s, str):
        return True
    if s[0] == "tuple":
        return all(_freshable(x) for x in s[1:])
    if s[0] in ("const", "view", "text"):
        return True
    if s[0] == "list":
        return all(_freshable(x) for x in s[1])
    return False


class SymFor(Cut):
    def __init__(self, lid, seq, names, loc):
        super().__init__(lid, names, loc, seq)
        self.mode = "iter" if _c().decide(self.k < seq.length) else "exit"
        self.step = 0
        if self.mode == "exit":
            if self.spec is not None:
                pass
            return

    def __iter__(self):
        return self

    def __next__(self):
        c = self.c
        if self.mode == "exit":
            c.cover(f"{self.lid}: exit")
            self.leave()
            self.finished()
            raise StopIteration
        if self.step == 0:
            self.step = 1
            c.loops_active.append(self)
            self.active = True
            self.leave()
            if self.seq.has_filter():
                # generic element of the source that passes the filter
                root = self.seq.root()
                j = c.fresh(f"j_{self.lid}", z3.IntSort())
                c.assume(z3.And(j >= 0, j < root.length))
                root.note_index(j)
                v, conds = self.seq.any_elem(j)
                for cond in conds:
                    c.assume(cond)
            else:
                self.seq.note_index(self.k)
                v = self.seq.elem(self.k)
            self.elem = v
            if self.spec is not None and self.spec.begin is not None:
                loc = dict(sys._getframe(1).f_locals)
                vw = self.view(loc, self.k)
                vw.elem = v
                self.spec.begin(vw)
            return v
        if self in c.loops_active:
            c.loops_active.remove(self)
        self.finish_iteration(dict(sys._getframe(1).f_locals))


def looked_for(lid, seq, wanted):
    """a loop that only looks for an element: there is one, and it is met, or there is none"""
    c = _c()
    try:
        b = seq.exists(lambda v: mkbool(tb(wanted(v))))
    except (Unsupported, Exception):
        return None
    if not bool(b):
        c.cover(f"{lid}: exit")
        return []
    root = seq.root()
    j = c.fresh(f"found_{lid}", z3.IntSort())
    c.assume(z3.And(j >= 0, j < root.length))
    root.note_index(j)
    v, conds = seq.any_elem(j)
    for cond in conds + [tb(wanted(v))]:
        c.assume(cond)
    return [v]


def forloop(lid, it, names, loc, wanted=None):
    c = _c()
    if c is None:
        return NativeFor(it)
    seq = sym_iter(it)
    if seq is None:
        return NativeFor(it)
    if wanted is not None and not c.loose and not c.elements and lid not in c.loop_specs:
        found = looked_for(lid, seq, wanted)
        if found is not None:
            return NativeFor(found)
    return SymFor(lid, seq, names, loc)


class NativeWhile:
    sym = False

    def __init__(self, lid):
        self.lid = lid
        self.n = 0
        c = _c()
        self.c = c
        self.dec = len(c.taken) if c else 0

    def tick(self):
        c = self.c
        if c is None:
            return True
        if self.n >= 1 and len(c.taken) != self.dec:
            c.while_cut = getattr(c, "while_cut", set()) | {self.lid}
            c.restart = True
            raise PathEnd()
        self.n += 1
        if self.n > 10000:
            raise Unsupported(f"{self.lid}: too many iterations")
        return True


class SymWhile(Cut):
    def __init__(self, lid, names, loc):
        super().__init__(lid, names, loc, None)
        self.step = 0

    def tick(self):
        c = self.c
        if self.step == 0:
            self.step = 1
            c.loops_active.append(self)
            self.leave()
            if self.spec is not None and self.spec.begin is not None:
                vw = self.view(dict(sys._getframe(1).f_locals), self.k)
                self.spec.begin(vw)
            return True
        if self in c.loops_active:
            c.loops_active.remove(self)
        self.finish_iteration(dict(sys._getframe(1).f_locals))


def whileloop(lid, names, loc):
    c = _c()
    if c is None:
        return NativeWhile(lid)
    specs = getattr(c, "loop_specs", {})
    if lid in specs or "while*" in specs or lid in getattr(c, "while_cut", ()):
        return SymWhile(lid, names, loc)
    return NativeWhile(lid)


# --- calls -----------------------------------------------------------------------------------
def qual(f):
    return f"{getattr(f, '__module__', None)}.{getattr(f, '__qualname__', getattr(f, '__name__', '?'))}"


def call(f, *a, **k):
    c = _c()
    if c is None:
        return f(*a, **k)
    t = type(f)
    if t is partial:
        kw = dict(f.keywords)
        kw.update(k)
        return call(f.func, *(f.args + a), **kw)
    if t is types.MethodType:
        fn = f.__func__
        if type(fn) is not types.FunctionType:
            return call(fn, f.__self__, *a, **k)
        q = qual(fn)
        if q in c.stubs:
            c.stubbed.add(q)
            return c.stubs[q](f.__self__, *a, **k)
        m = fn.__module__ or ""
        if m.startswith("httplint"):
            c.functions.add(q)
            return f(*a, **k)
        if m.startswith(("pyvc", "props", "spec", "__main__")) or isinstance(
                f.__self__, (Sym, SList, PList, PDict, PSet, LazyDict)):
            return f(*a, **k)
        return external(q, f, (f.__self__,) + a, k, a)
    if t is types.FunctionType:
        q = qual(f)
        if q in c.stubs:
            c.stubbed.add(q)
            return c.stubs[q](*a, **k)
        m = f.__module__ or ""
        if m.startswith("httplint"):
            c.functions.add(q)
            return f(*a, **k)
        if m.startswith(("pyvc", "props", "spec", "__main__")):
            return f(*a, **k)
        return external(q, f, a, k, a)
    if isinstance(f, type):
        from .models import TYPES

        if f in TYPES:
            a = tuple(unopt(x) for x in a)
            return TYPES[f](*a, **k)
        q = f"{f.__module__}.{f.__qualname__}"
        if q in c.stubs:
            c.stubbed.add(q)
            return c.stubs[q](*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        if f is partial:
            return partial(*a, **k)
        if f.__module__.startswith("httplint"):
            return instantiate(f, a, k)
        if f.__module__.startswith(("pyvc", "props", "spec")):
            return f(*a, **k)
        if not any(deep_sym(x) for x in a) and not any(deep_sym(x) for x in k.values()):
            return f(*a, **k)
        return external(q, f, a, k, a)
    if t in (types.BuiltinFunctionType, types.MethodWrapperType) or t.__name__ in (
        "method_descriptor", "builtin_function_or_method", "builtin_method", "wrapper_descriptor", "classmethod_descriptor"):
        return builtin(f, a, k)
    if t.__name__ == "_lru_cache_wrapper":
        q = qual(f)
        if q in c.stubs:
            c.stubbed.add(q)
            return c.stubs[q](*a, **k)
        return external(q, f, a, k, a)
    # instances with __call__
    cl = type(f)
    m = cl.__module__ or ""
    if m.startswith(("httplint", "pyvc", "props", "spec")):
        return f(*a, **k)
    if not any(deep_sym(x) for x in a) and not any(deep_sym(x) for x in k.values()):
        return f(*a, **k)
    return external(f"{m}.{cl.__qualname__}()", f, a, k, a)


_inst = [0]


def instantiate(cls, a, k):
    c = _c()
    obj = cls.__new__(cls, *a, **k) if cls.__new__ is not object.__new__ else object.__new__(cls)
    register(obj, f"new {cls.__qualname__}")
    init = type(obj).__init__
    if init is not object.__init__:
        if type(init) is types.FunctionType and (init.__module__ or "").startswith("httplint"):
            c.functions.add(qual(init))
            init(obj, *a, **k)
        else:
            init(obj, *a, **k)
    return obj


def external(q, f, full, k, a):
    """A Python function from outside the repository."""
    from .models import EXTERNALS

    c = _c()
    full = tuple(unopt(x) for x in full)
    k = {n: unopt(x) for n, x in k.items()}
    if not any(deep_sym(x) for x in full) and not any(deep_sym(x) for x in k.values()):
        if q != "re.sub" or len(full) < 2 or not callable(full[1]):
            return f(*a, **k)
    for key in (q, q.split(".")[-1]):
        if key in EXTERNALS:
            c.assumed.add(f"model of {q}")
            return EXTERNALS[key](*full, **k)
    raise Unsupported(f"call of {q} with a symbolic argument")


def builtin(f, a, k):
    from .models import BUILTINS, METHODS, EXTERNALS

    c = _c()
    if f is isinstance and type(a[0]) is core.SDyn:
        return a[0].narrow(lambda T: issubclass(T, a[1]))
    a = tuple(unopt(x) for x in a)
    k = {n: unopt(x) for n, x in k.items()}
    self = getattr(f, "__self__", None)
    name = f.__name__
    if self is not None and not isinstance(self, types.ModuleType):
        if isinstance(self, (Sym, SList, PList, PDict, PSet, LazyDict)) and not isinstance(self, type):
            return f(*a, **k)
        if isinstance(self, type):
            key = (self, name)
            if key in METHODS:
                return METHODS[key](*a, **k)
            if deep_sym(a) or any(deep_sym(x) for x in k.values()):
                raise Unsupported(f"{self.__name__}.{name} with a symbolic argument")
            return f(*a, **k)
        if isinstance(self, (list, set, dict)) and name in (
                "append", "extend", "insert", "pop", "remove", "clear", "add", "discard", "update",
                "sort", "reverse", "setdefault", "popitem"):
            touched(self)
        if isinstance(self, str) and name == "join" and isinstance(a[0], types.GeneratorType):
            a = (list(a[0]),)
        anysym = any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values())
        if not anysym and not deep_sym(self) and not (name == "sub" and a and callable(a[0])):
            return f(*a, **k)
        for base in type(self).__mro__:
            if (base, name) in METHODS:
                return METHODS[(base, name)](self, *a, **k)
        if isinstance(self, (list, dict)) and name in ("append", "extend", "insert", "items", "values", "keys", "copy", "clear", "pop"):
            if not any(is_sym(x) or isinstance(x, (SList, PList)) and getattr(x, "sym", x) is not None for x in a) or name in ("append", "insert"):
                return f(*a, **k)
        if type(self) is dict and name == "update" and all(type(x) is dict and not any(is_sym(y) for y in x) for x in a):
            return f(*a, **k)
        raise Unsupported(f"{type(self).__name__}.{name} with a symbolic argument")
    if c.stubs and f"{f.__module__}.{name}" in c.stubs:
        return c.stubs[f"{f.__module__}.{name}"](*a, **k)
    if f in BUILTINS:
        return BUILTINS[f](*a, **k)
    anysym = any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values())
    if not anysym:
        return f(*a, **k)
    key = f"{f.__module__}.{name}"
    if key in EXTERNALS:
        c.assumed.add(f"model of {key}")
        return EXTERNALS[key](*a, **k)
    raise Unsupported(f"call of {key} with a symbolic argument")
