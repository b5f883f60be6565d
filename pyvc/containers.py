"""Symbolic and hybrid containers, shapes."""
from __future__ import annotations

import dataclasses

import z3

from . import core
from .core import (
    S, SBool, SBytes, SInt, SReal, SStr, Sym, Unsupported, ctx, is_sym, mkbool, mknum, mkstr,
    tb, z3val, Opaque,
)


# --- shapes ---------------------------------------------------------------------------------
def shape_of(v, depth=0):
    v = core.unopt(v)
    t = type(v)
    if t in (SInt,) or (isinstance(v, int) and not isinstance(v, bool) and t in (int,)):
        return "int"
    if t in (SReal, float):
        return "real"
    if t in (SBool, bool):
        return "bool"
    if t is SStr or t is str:
        if core.ctx() is not None and core.ctx().texts:
            from . import texts

            return texts.shape(v)
        return "str"
    if t is SBytes or t is bytes:
        return "bytes"
    if v is None:
        return "none"
    if t is core.SView:
        return ("view", v.name)
    if t is tuple and depth < 4:
        return ("tuple",) + tuple(shape_of(x, depth + 1) for x in v)
    if isinstance(v, PList) and depth < 4:
        es = set()
        for x in list.__iter__(v):
            es.add(shape_of(x, depth + 1))
        if v.sym is not None:
            es |= set(v.sym.maker.shapes) if v.sym.maker is not None else _uns("list shape")
        return ("list", frozenset(es))
    if isinstance(v, type):
        return ("const", v)
    if dataclasses.is_dataclass(t) and depth < 4:
        return ("record", t) + tuple((k, shape_of(x, depth + 1)) for k, x in sorted(vars(v).items()))
    if depth and isinstance(v, (dict, set, LazyDict)):
        return ("opaque", type(v).__name__)
    if depth and core.ctx() is not None and core.ctx().loose:
        return ("unread",)  # in a list, where nothing is known of it: reading it is out of reach
    return ("obj", id(v) if is_sym(v) or isinstance(v, (list, dict, set)) else v)


def _uns(m):
    raise Unsupported(m)


def fresh_of(shapes, name):
    """A fresh value whose shape is one of `shapes` (forks when there are several)."""
    shapes = sorted(shapes, key=str)
    sh = shapes[ctx().choose(len(shapes), "shape")] if len(shapes) > 1 else shapes[0]
    return _fresh1(sh, name)


def _fresh1(sh, name):
    c = ctx()
    if sh == "int":
        return SInt(c.fresh(name, z3.IntSort()))
    if sh == "real":
        return SReal(c.fresh(name, z3.RealSort()))
    if sh == "bool":
        return SBool(c.fresh(name, z3.BoolSort()))
    if sh == "str":
        return SStr(c.fresh(name, S))
    if sh == "bytes":
        return SBytes(c.fresh(name, S))
    if sh == "none":
        return None
    if isinstance(sh, tuple):
        if sh[0] == "text":
            from . import texts

            v = c.fresh(name, S)
            texts.fresh(sh[1], v.decl())
            return SStr(v)
        if sh[0] == "tuple":
            return tuple(_fresh1(s, f"{name}.{i}") for i, s in enumerate(sh[1:]))
        if sh[0] == "const":
            return sh[1]
        if sh[0] == "record":
            r = sh[1].__new__(sh[1])
            for k, s in sh[2:]:
                object.__setattr__(r, k, _fresh1(s, f"{name}.{k}"))
            return r
        if sh[0] == "view":
            a, b = c.fresh(name + ".from", z3.IntSort()), c.fresh(name + ".to", z3.IntSort())
            c.assume(z3.And(a >= 0, b >= a))
            return core.SView(sh[1], a, b)
        if sh[0] == "list":
            l = PList()
            l.sym = SList(name, maker=Maker(name, set(sh[1])))
            return l
    raise Unsupported(f"no fresh value of shape {sh}")


class Maker:
    """Elements of a symbolic sequence as uninterpreted functions of the index."""

    def __init__(self, base, shapes, inv=None):
        self.base, self.shapes, self.inv = base, set(shapes), inv

    def __call__(self, idx):
        shapes = sorted(self.shapes, key=str)
        if not shapes:
            raise core.Infeasible()
        k = 0
        if len(shapes) > 1:
            tag = z3.Function(f"{self.base}_tag", z3.IntSort(), z3.IntSort())(idx)
            k = len(shapes) - 1
            for j in range(len(shapes) - 1):
                if ctx().decide(tag == j):
                    k = j
                    break
        v = self._mk(shapes[k], f"{self.base}_{k}" if len(shapes) > 1 else self.base, idx)
        if self.inv is not None:
            for a in self.inv(v):
                ctx().assume(a)
        return v

    def _mk(self, sh, nm, idx):
        I = z3.IntSort()
        if sh == "int":
            return SInt(z3.Function(nm, I, z3.IntSort())(idx))
        if sh == "real":
            return SReal(z3.Function(nm, I, z3.RealSort())(idx))
        if sh == "bool":
            return SBool(z3.Function(nm, I, z3.BoolSort())(idx))
        if sh == "str":
            return SStr(z3.Function(nm, I, S)(idx))
        if sh == "bytes":
            return SBytes(z3.Function(nm, I, S)(idx))
        if sh == "none":
            return None
        if isinstance(sh, tuple) and sh[0] == "tuple":
            return tuple(self._mk(s, f"{nm}.{i}", idx) for i, s in enumerate(sh[1:]))
        if isinstance(sh, tuple) and sh[0] == "const":
            return sh[1]
        if isinstance(sh, tuple) and sh[0] == "record":
            r = sh[1].__new__(sh[1])
            for k, s in sh[2:]:
                object.__setattr__(r, k, self._mk(s, f"{nm}.{k}", idx))
            return r
        if isinstance(sh, tuple) and sh[0] == "text":
            from . import texts

            f = z3.Function(nm, I, S)
            texts.fresh(sh[1], f)
            return SStr(f(idx))
        if isinstance(sh, tuple) and sh[0] == "list":
            l = PList()
            n = z3.Function(nm + "_len", I, z3.IntSort())(idx)
            ctx().assume(n >= 0)
            l.sym = SList(f"{nm}[{idx}]", maker=Maker(f"{nm}[{idx}]", set(sh[1])), length=n)
            return l
        if isinstance(sh, tuple) and sh[0] == "opaque":
            return Opaque(nm)
        raise Unsupported(f"element of shape {sh}")


# --- symbolic list ----------------------------------------------------------------------------
class SList:
    """A list of unknown length.  `elem(idx)` gives the value at an index, or raises
    Unsupported for lists known only by membership."""

    def __init__(self, name, maker=None, length=None, parent=None, mapf=None, filt=None, minlen=0,
                 kind="list"):
        c = ctx()
        self.name = name
        self.maker = maker
        self.parent, self.mapf, self.filt = parent, mapf, filt
        if length is None:
            key = ("len", name)
            length = c.memo.get(key)
            if length is None:
                length = c.memo[key] = c.fresh(f"len_{name}", z3.IntSort())
            c.assume(length >= minlen)
        self.length = length
        self.kind = kind

    def slen(self):
        return mknum(self.length)

    def elem(self, idx):
        if self.parent is not None and self.filt is None:
            return self.mapf(self.parent.elem(idx))
        if self.parent is not None:
            raise Unsupported("element of a filtered symbolic list")
        return self.maker(idx)

    def any_elem(self, idx):
        """value and condition (z3 Bool or None) for a generic source index"""
        if self.parent is not None:
            v, conds = self.parent.any_elem(idx)
            if self.filt is not None:
                conds = conds + [tb(self.filt(v))]
            return self.mapf(v), conds
        return self.maker(idx), []

    def root(self):
        return self if self.parent is None else self.parent.root()

    def exists(self, pred):
        """mkbool: some element satisfies pred (pred must not fork)"""
        c = ctx()
        root = self.root()
        if c.loose:
            b = c.fresh("exists", z3.BoolSort())
            c.assume(z3.Implies(b, root.length > 0))
            return SBool(b)
        idx = z3.Const(f"idx_{root.name}", z3.IntSort())
        with nofork():
            v, conds = self.any_elem(idx)
            p = z3.simplify(z3.And(*(conds + [tb(pred(v))])))
        if z3.is_false(p):
            return False
        if z3.is_true(p):
            return mkbool(root.length > 0)
        return self._exists(root, idx, p)

    @staticmethod
    def _exists(root, idx, p):
        c = ctx()
        if z3.is_or(p):
            return core.s_or(*[SList._exists(root, idx, q) for q in p.children()])
        if z3.is_true(p):
            return mkbool(root.length > 0)
        if z3.is_false(p):
            return False
        nm = f"exists[{root.name}: {p.sexpr()}]"
        b = c.memo.get(nm)
        if b is None:
            b = c.memo[nm] = z3.Const(nm, z3.BoolSort())
            sk = z3.Const(f"sk_{len(c.memo)}_{root.name}", z3.IntSort())
            rng = z3.And(sk >= 0, sk < root.length)
            c.assume(z3.Implies(b, z3.And(rng, z3.substitute(p, (idx, sk)))))
            for o, g in c.memo.get(("idxs", root.name), []):
                c.assume(z3.Implies(z3.And(g, z3.substitute(p, (idx, o))), b))
            c.memo.setdefault(("preds", root.name), []).append((b, p, idx))
            SList._index(root, sk, rng)
        return SBool(b)

    @staticmethod
    def _index(root, i, guard):
        """an index term is in use: relate it to the membership facts known"""
        c = ctx()
        c.memo.setdefault(("idxs", root.name), []).append((i, guard))
        for b, p, idx in c.memo.get(("preds", root.name), []):
            c.assume(z3.Implies(z3.And(guard, z3.substitute(p, (idx, i))), b))

    def note_index(self, i):
        """an index known to be in range has been used"""
        self._index(self.root(), i, z3.BoolVal(True))

    def scontains(self, x):
        return self.exists(lambda v: veq(v, x))

    def __contains__(self, x):
        return bool(self.scontains(x))

    def __bool__(self):
        if self.filt is not None or (self.parent is not None and self.parent.has_filter()):
            return bool(self.exists(lambda v: True))
        return ctx().decide(self.length > 0)

    def has_filter(self):
        return self.filt is not None or (self.parent is not None and self.parent.has_filter())

    def getitem(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic list")
        t = core._arith(k)
        if self.has_filter():
            raise Unsupported("index of a filtered symbolic list")
        if ctx().decide(z3.Or(t >= self.length, t < -self.length)):
            raise IndexError("list index out of range")
        i = z3.simplify(z3.If(t < 0, t + self.length, t))
        self.note_index(i)
        return self.elem(i)

    __getitem__ = getitem

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic list")

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of symbolic lists")

    __hash__ = None

    def map(self, f, filt=None):
        return SList(self.name + "'", parent=self, mapf=f, filt=filt, length=self.length)

    def count(self, x):
        c = ctx()
        with nofork():
            idx = z3.Const(f"idx_{self.root().name}", z3.IntSort())
            v, conds = self.any_elem(idx)
            key = ("count", self.root().name, z3.simplify(z3.And(*(conds + [tb(veq(v, x))]))).sexpr())
        if key in c.memo:
            return mknum(c.memo[key])
        r = c.memo[key] = c.fresh("count", z3.IntSort())
        b = tb(self.scontains(x))
        c.assume(z3.And(r >= 0, (r >= 1) == b, r <= self.root().length))
        c.approx = True
        return mknum(r)


def hashable(x):
    """what may be a member of a set or a key (the models of lists and dicts can be hashed; what they stand for can't)"""
    if is_sym(x):
        return
    if isinstance(x, tuple):
        for y in x:
            hashable(y)
    elif isinstance(x, (list, dict, set, SList, LazyDict)):
        raise TypeError(f"unhashable type: {type(x).__name__}")


def simple(sl):
    """a list of one kind of plain values"""
    return sl.parent is None and isinstance(sl.maker, Maker) and len(sl.maker.shapes) == 1 and all(type(s) is str for s in sl.maker.shapes)


def each(it, f, n=1):
    """what an operation of the library does to the elements of a list of unknown length must not raise: a path of its own does it
    to any of them (any n of them)"""
    c = ctx()
    if c is None or not (c.loose or c.elements):
        return
    sl = it.as_slist() if isinstance(it, (PList, PSet)) else it
    if not isinstance(sl, SList) or simple(sl):
        return
    if not c.choose(2, "the rest"):
        vs = []
        root = sl.root()
        for _ in range(n):
            idx = c.fresh("element", z3.IntSort())
            c.assume(z3.And(idx >= 0, idx < root.length))
            root.note_index(idx)
            v, conds = sl.any_elem(idx)
            if not all(c.decide(x) for x in conds):
                raise core.PathEnd()
            vs.append(v)
        f(*vs)
        raise core.PathEnd()


class nofork:
    def __enter__(self):
        c = ctx()
        self.old = c.__dict__.get("decide")
        def nf(e):
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            raise Unsupported("branch inside a quantified element expression")
        c.decide = nf

    def __exit__(self, *a):
        c = ctx()
        if self.old is None:
            del c.__dict__["decide"]
        else:
            c.decide = self.old


def veq(a, b):
    """equality without forking"""
    if is_sym(a) or is_sym(b):
        r = a == b if is_sym(a) else b == a
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return core.s_and(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, SList) or isinstance(b, SList):
        raise Unsupported("list equality")
    return a == b


def deep_sym(x, depth=0):
    if is_sym(x) or isinstance(x, (SList, LazyDict)) or getattr(type(x), "pv_text", False):
        return True
    if isinstance(x, PList) and x.sym is not None:
        return True
    if isinstance(x, PSet) and x.is_symbolic():
        return True
    if isinstance(x, PDict) and x.is_symbolic():
        return True
    if depth < 4:
        if type(x) in (tuple, list, PList, set, frozenset):
            return any(deep_sym(y, depth + 1) for y in list.__iter__(x) if True) if isinstance(
                x, list) else any(deep_sym(y, depth + 1) for y in x)
        if isinstance(x, dict):
            return any(deep_sym(y, depth + 1) for y in dict.values(x))
    return False


def opaque_str_list(s, opname, minlen=0):
    """result of a string splitting operation: elements are functions of (string, index)"""
    c = ctx()
    key = ("strlist", opname, core.kid(s.e))
    got = c.memo.get(key)
    if got is None:
        nm = f"{opname}({s.e.sexpr()})"
        shape = "bytes" if type(s) is SBytes else "str"
        got = c.memo[key] = (SList(nm, maker=Maker(nm, {shape}), minlen=minlen), s)
        c.memo["maker", nm] = (opname, s)
    l = PList()
    l.sym = got[0]
    return l


# --- hybrid native containers -----------------------------------------------------------------
class PList(list):
    """A list made by the code under verification: native until a loop cut makes it symbolic."""

    sym = None  # SList prefix; native contents follow it
    pv_name = None

    def __new__(cls, *a):
        o = list.__new__(cls)
        return o

    def __hash__(self):
        return id(self)

    def _touch(self):
        from .runtime import touched

        touched(self)

    def append(self, x):
        self._touch()
        list.append(self, x)

    def extend(self, xs):
        self._touch()
        if isinstance(xs, SList) or isinstance(xs, PList) and xs.sym is not None:
            raise Unsupported("extend with a symbolic list")
        list.extend(self, xs)

    def insert(self, i, x):
        self._touch()
        self._nosym()
        list.insert(self, i, x)

    def pop(self, *a):
        self._touch()
        if self.sym is not None:
            if a and not (isinstance(a[0], int) and not is_sym(a[0]) and a[0] == -1):
                raise Unsupported("pop from a symbolic list")
            if list.__len__(self) == 0:
                if self.sym.has_filter():
                    raise Unsupported("pop from a filtered list")
                last = self.sym.getitem(-1)
                rest = self.getitem(slice(None, -1))
                self.sym = rest.sym
                return last
        return list.pop(self, *a)

    def remove(self, x):
        self._touch()
        self._nosym()
        if deep_sym(x) or deep_sym(self):
            raise Unsupported("remove on symbolic list")
        list.remove(self, x)

    def sort(self, *a, **k):
        self._touch()
        self._nosym()
        list.sort(self, *a, **k)

    def reverse(self):
        self._touch()
        self._nosym()
        list.reverse(self)

    def clear(self):
        self._touch()
        self.sym = None
        list.clear(self)

    def _nosym(self):
        if self.sym is not None:
            raise Unsupported("operation on a symbolic list")

    def slen(self):
        n = list.__len__(self)
        if self.sym is None:
            return n
        if self.sym.has_filter():
            r = ctx().fresh("flen", z3.IntSort())
            ctx().assume(z3.And(r >= 0, r <= self.sym.root().length,
                                (r > 0) == tb(self.sym.exists(lambda v: True))))
            ctx().approx = True
            return mknum(r + n)
        return mknum(self.sym.length + n)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported("native len() of a symbolic list")
        return list.__len__(self)

    def __bool__(self):
        if self.sym is None or list.__len__(self):
            return list.__len__(self) > 0
        return bool(self.sym)

    def as_slist(self):
        if self.sym is None:
            return None
        if list.__len__(self) == 0:
            return self.sym
        es = {shape_of(x) for x in list.__iter__(self)} | set(self.sym.maker.shapes)
        ctx().approx = True
        nm = f"{self.sym.name}+{list.__len__(self)}"
        return SList(nm, maker=Maker(nm, es), length=z3.simplify(self.sym.length + list.__len__(self)))

    def scontains(self, x):
        rs = [veq(y, x) for y in list.__iter__(self)]
        if self.sym is not None:
            rs.append(self.sym.scontains(x))
        return core.s_or(*rs) if rs else False

    def __contains__(self, x):
        return bool(self.scontains(x))

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("native iteration over a symbolic list")
        return list.__iter__(self)

    def getitem(self, k):
        if self.sym is None:
            if is_sym(k):
                n = list.__len__(self)
                for i in range(n):
                    if ctx().decide(z3.Or(k.e == i, k.e == i - n)):
                        return list.__getitem__(self, i)
                raise IndexError("list index out of range")
            if isinstance(k, slice):
                if any(is_sym(x) for x in (k.start, k.stop, k.step)):
                    raise Unsupported("symbolic slice")
                r = PList()
                list.extend(r, list.__getitem__(self, k))
                return r
            return list.__getitem__(self, k)
        if isinstance(k, slice):
            if list.__len__(self) == 0 and k.step in (None, 1):
                a, b = k.start, k.stop
                r = PList()
                src = self.sym
                n = src.length
                def bound(v, d):
                    if v is None:
                        return d
                    t = core._arith(v)
                    return z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
                lo, hi = bound(a, z3.IntVal(0)), bound(b, n)
                if src.has_filter():
                    raise Unsupported("slice of filtered list")
                class _M:
                    shapes = src.maker.shapes if src.maker else set()
                    def __call__(self, idx):
                        return src.elem(idx + lo)
                r.sym = SList(f"{src.name}[{a}:{b}]", maker=_M(),
                              length=z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))))
                return r
            raise Unsupported("slice of a symbolic list")
        t = core._arith(k)
        tail = list.__len__(self)
        if tail == 0:
            return self.sym.getitem(k)
        if isinstance(k, int) and not is_sym(k) and k < 0 and -k <= tail:
            return list.__getitem__(self, k)
        n = self.sym.length
        if ctx().decide(z3.And(t >= 0, t < n)):
            return self.sym.getitem(k)
        for i in range(tail):
            if ctx().decide(z3.Or(t == n + i, t == i - tail)):
                return list.__getitem__(self, i)
        if ctx().decide(z3.And(t < -tail, t >= -(n + tail))):
            return self.sym.getitem(mknum(t + tail))
        raise IndexError("list index out of range")

    def __getitem__(self, k):
        return self.getitem(k)

    def __setitem__(self, k, v):
        self._touch()
        self._nosym()
        list.__setitem__(self, k, v)

    def __eq__(self, o):
        if self is o:
            return True
        if self.sym is None and (not isinstance(o, PList) or o.sym is None) and isinstance(o, list):
            if list.__len__(self) != list.__len__(o):
                return False
            return core.s_and(*[veq(a, b) for a, b in zip(list.__iter__(self), list.__iter__(o))])
        if isinstance(o, list):
            # only emptiness is decidable
            if not isinstance(o, PList) and list.__len__(o) == 0:
                return mkbool(z3val(self.slen()) == 0)
            raise Unsupported("equality of symbolic lists")
        return False

    def __ne__(self, o):
        return core.s_not(self.__eq__(o))

    def __add__(self, o):
        if self.sym is None and isinstance(o, list) and (not isinstance(o, PList) or o.sym is None):
            r = PList()
            list.extend(r, list.__iter__(self))
            list.extend(r, list.__iter__(o))
            return r
        raise Unsupported("concatenation of symbolic lists")

    def count(self, x):
        if self.sym is None:
            return sum_terms([veq(y, x) for y in list.__iter__(self)])
        return sum_terms([veq(y, x) for y in list.__iter__(self)]) + self.sym.count(x)

    def index(self, x, *a):
        if self.sym is not None or deep_sym(x) or deep_sym(self):
            raise Unsupported("index")
        return list.index(self, x, *a)

    def copy(self):
        r = PList()
        list.extend(r, list.__iter__(self))
        r.sym = self.sym
        return r

    def havoc(self, shapes, name):
        list.clear(self)
        if not shapes:
            # nothing was ever added
            self.sym = None
            return
        self.sym = SList(name, maker=Maker(name, shapes))


def sum_terms(xs):
    t = z3.IntVal(0)
    for x in xs:
        t = t + core._b2i(tb(x))
    return mknum(t)


class PSet(set):
    """A set made by the code under verification."""

    pv_name = None

    def __init__(self, it=()):
        set.__init__(self)
        self.items = []  # symbolic members
        self.sym = None  # SList membership source
        if isinstance(it, PList) and it.sym is not None:
            self.sym = it.sym
            it = list.__iter__(it)
        elif isinstance(it, SList):
            self.sym = it
            it = ()
        elif isinstance(it, PSet):
            self.items = it.items[:]
            self.sym = it.sym
            it = set.__iter__(it)
        for x in it:
            self._add(x)

    def _add(self, x):
        hashable(x)
        if deep_sym(x):
            self.items.append(x)
        else:
            set.add(self, x)

    def is_symbolic(self):
        return bool(self.items) or self.sym is not None

    def add(self, x):
        from .runtime import touched

        touched(self)
        self._add(x)

    def discard(self, x):
        from .runtime import touched

        touched(self)
        if self.is_symbolic() or deep_sym(x):
            raise Unsupported("discard from symbolic set")
        set.discard(self, x)

    def remove(self, x):
        from .runtime import touched

        touched(self)
        if self.is_symbolic() or deep_sym(x):
            raise Unsupported("remove from symbolic set")
        set.remove(self, x)

    def update(self, *its):
        from .runtime import touched

        touched(self)
        for it in its:
            if isinstance(it, (SList, LazyDict)) or isinstance(it, PList) and it.sym is not None:
                raise Unsupported("set.update symbolic")
            for x in it:
                self._add(x)

    def scontains(self, x):
        hashable(x)
        if not self.is_symbolic() and not deep_sym(x):
            return set.__contains__(self, x)
        rs = [veq(y, x) for y in set.__iter__(self)] + [veq(y, x) for y in self.items]
        if self.sym is not None:
            rs.append(self.sym.scontains(x))
        return core.s_or(*rs) if rs else False

    def __contains__(self, x):
        return bool(self.scontains(x))

    def _only(self, keep):
        """the members for which keep(x) holds"""
        from .runtime import in_
        r = PSet()
        for x in list(set.__iter__(self)) + self.items:
            k = keep(x)
            if is_sym(k):
                if bool(k):
                    r._add(x)
            elif k:
                r._add(x)
        if self.sym is not None:
            r.sym = self.sym.map(lambda v: v, lambda v: keep(v))
        return r

    def intersection(self, *os):
        from .runtime import in_
        r = self
        for o in os:
            r = r._only(lambda x, o=o: in_(x, o))
        return r if os else PSet(self)

    def __and__(self, o):
        return self.intersection(o)

    def difference(self, *os):
        from .runtime import notin
        r = self
        for o in os:
            r = r._only(lambda x, o=o: notin(x, o))
        return r if os else PSet(self)

    def __sub__(self, o):
        return self.difference(o)

    def isdisjoint(self, o):
        return not bool(self.intersection(o))

    def issubset(self, o):
        return not bool(self.difference(o))

    __le__ = issubset

    def copy(self):
        return PSet(self)

    def slen(self):
        if not self.is_symbolic():
            return set.__len__(self)
        xs = list(set.__iter__(self)) + self.items
        if self.sym is None and len(xs) <= 4:
            n = 0
            for i, x in enumerate(xs):
                if not any([bool(veq(x, y)) for y in xs[:i]]):
                    n += 1
            return n
        n = ctx().fresh("setlen", z3.IntSort())
        lo = 1 if (self.items or set.__len__(self)) else 0
        up = z3.IntVal(len(self.items) + set.__len__(self))
        if self.sym is not None:
            up = up + self.sym.root().length
            if lo == 0:
                ctx().assume((n > 0) == tb(self.sym.exists(lambda v: True)))
        ctx().assume(z3.And(n >= max(lo, set.__len__(self)), n <= up))
        ctx().approx = True
        return mknum(n)

    def __len__(self):
        if self.is_symbolic():
            raise Unsupported("native len of symbolic set")
        return set.__len__(self)

    def __bool__(self):
        if set.__len__(self) or self.items:
            return True
        if self.sym is not None:
            return bool(self.sym)
        return False

    def __iter__(self):
        if self.is_symbolic():
            raise Unsupported("native iteration over a symbolic set")
        return set.__iter__(self)

    def as_slist(self):
        if not self.is_symbolic():
            return None
        if self.sym is not None and not self.items and not set.__len__(self):
            return self.sym
        es = {shape_of(x) for x in list(set.__iter__(self)) + self.items}
        if self.sym is not None:
            es |= self.sym.maker.shapes
        ctx().approx = True
        return SList("set" + str(id(self)), maker=Maker("setelem", es))

    def __eq__(self, o):
        if not self.is_symbolic() and not (isinstance(o, PSet) and o.is_symbolic()):
            return set.__eq__(self, o)
        raise Unsupported("set equality")

    __hash__ = None

    def havoc(self, shapes, name):
        set.clear(self)
        self.items = []
        self.sym = SList(name, maker=Maker(name, shapes)) if shapes else None


class PDict(dict):
    """A dict made by the code under verification; symbolic keys are kept as writes in order."""

    pv_name = None
    shrunk = False

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.writes = []  # (key, value) in order, once a symbolic key was stored
        self.base = None  # havoced base: {'shapes':..., 'name':...}
        if a:
            src = a[0]
            if isinstance(src, PDict):
                self.writes = src.writes[:]
                self.base = src.base
                for kk in dict.__iter__(src):
                    dict.__setitem__(self, kk, dict.__getitem__(src, kk))
            elif isinstance(src, dict):
                for kk in src:
                    self[kk] = src[kk]
            else:
                for kk, vv in src:
                    self[kk] = vv
        for kk in k:
            self[kk] = k[kk]

    def is_symbolic(self):
        return bool(self.writes) or self.base is not None

    def __setitem__(self, k, v):
        from .runtime import touched

        touched(self)
        hashable(k)
        if self.is_symbolic() or deep_sym(k):
            self.writes.append((k, v))
        else:
            dict.__setitem__(self, k, v)

    def lookup(self, k):
        """(found, value); forks"""
        hashable(k)
        if not self.is_symbolic() and not deep_sym(k):
            return (True, dict.__getitem__(self, k)) if dict.__contains__(self, k) else (False, None)
        for kk, vv in reversed(self.writes):
            if bool(veq(kk, k)):
                return True, vv
        for kk in dict.__iter__(self):
            if bool(veq(kk, k)):
                return True, dict.__getitem__(self, kk)
        if self.base is not None:
            t = z3val(k)
            p = z3.Function(f"has_{self.base['name']}", t.sort(), z3.BoolSort())(t)
            if ctx().decide(p):
                key = ("dictval", self.base["name"], core.kid(t))
                c = ctx()
                if key not in c.memo:
                    c.memo[key] = (fresh_of(self.base["shapes"], f"val_{self.base['name']}"), t)
                return True, c.memo[key][0]
        return False, None

    def scontains(self, k):
        if not self.is_symbolic():
            if deep_sym(k):
                ks = [veq(kk, k) for kk in dict.__iter__(self)]
                return core.s_or(*ks) if ks else False
            return dict.__contains__(self, k)
        return self.lookup(k)[0]

    def __contains__(self, k):
        return bool(self.scontains(k))

    def __getitem__(self, k):
        f, v = self.lookup(k)
        if not f:
            raise KeyError("symbolic" if deep_sym(k) else k)
        return v

    getitem = __getitem__

    def get(self, k, d=None):
        f, v = self.lookup(k)
        return v if f else d

    def setdefault(self, k, d=None):
        f, v = self.lookup(k)
        if not f:
            self[k] = d
            return d
        return v

    def pop(self, k, *d):
        if self.is_symbolic() or deep_sym(k):
            raise Unsupported("pop from symbolic dict")
        from .runtime import touched

        touched(self)
        self.shrunk = True
        return dict.pop(self, k, *d)

    def clear(self):
        from .runtime import touched

        touched(self)
        self.shrunk = True
        self.writes, self.base = [], None
        dict.clear(self)

    def popitem(self):
        raise Unsupported("popitem")

    def __delitem__(self, k):
        self.pop(k)

    def update(self, *a, **k):
        for x in a:
            if isinstance(x, PDict) and x.is_symbolic() or isinstance(x, LazyDict):
                raise Unsupported("update from symbolic dict")
            if isinstance(x, dict):
                for kk in dict.__iter__(x):
                    self[kk] = dict.__getitem__(x, kk)
            else:
                for kk, vv in x:
                    self[kk] = vv
        for kk in k:
            self[kk] = k[kk]

    def copy(self):
        return PDict(self)

    def __bool__(self):
        if dict.__len__(self) or self.writes:
            return True
        if self.base is not None:
            return bool(SBool(z3.Const(f"nonempty_{self.base['name']}", z3.BoolSort())))
        return False

    def __len__(self):
        if self.is_symbolic():
            raise Unsupported("len of symbolic dict")
        return dict.__len__(self)

    def __iter__(self):
        if self.is_symbolic():
            raise Unsupported("iteration over symbolic dict")
        return dict.__iter__(self)

    def items(self):
        if self.is_symbolic():
            return self._as_list("items")
        return dict.items(self)

    def keys(self):
        if self.is_symbolic():
            return self._as_list("keys")
        return dict.keys(self)

    def values(self):
        if self.is_symbolic():
            return self._as_list("values")
        return dict.values(self)

    def _as_list(self, what):
        ks = {shape_of(k) for k, _ in self.writes} | {shape_of(k) for k in dict.__iter__(self)}
        vs = {shape_of(v) for _, v in self.writes} | {shape_of(v) for v in dict.values(self)}
        if self.base is not None:
            ks |= self.base["kshapes"]
            vs |= self.base["shapes"]
        ctx().approx = True
        nm = f"{what}_{self.pv_name}"
        l = PList()
        if what == "items":
            es = {("tuple", a, b) for a in ks for b in vs}
        else:
            es = ks if what == "keys" else vs
        l.sym = SList(nm, maker=Maker(nm, es))
        return l

    def as_slist(self):
        if not self.is_symbolic():
            return None
        return self._as_list("keys").sym

    def havoc(self, shapes, name):
        """shapes: set of ('kv', kshape, vshape) or ('kvc', key, vshape)"""
        if shapes and all(s[0] == "kvc" for s in shapes) and not self.is_symbolic():
            keys = list(dict.fromkeys(list(dict.__iter__(self)) + sorted((s[1] for s in shapes), key=str)))
            opt = [k for k in keys if not dict.__contains__(self, k)]
            if len(opt) <= 5:
                for k in keys:
                    if k in opt and not ctx().decide(ctx().fresh(f"{name}_has_{k}", z3.BoolSort())):
                        continue
                    vs = {s[2] for s in shapes if s[1] == k}
                    dict.__setitem__(self, k, fresh_of(vs, f"{name}[{k}]"))
                return
        shapes = {("kv", shape_of(s[1]), s[2]) if s[0] == "kvc" else s for s in shapes}
        dict.clear(self)
        self.writes = []
        if shapes:
            self.base = {"name": name, "kshapes": {s[1] for s in shapes},
                         "shapes": {s[2] for s in shapes}}

    def __eq__(self, o):
        if self is o:
            return True
        if not self.is_symbolic() and isinstance(o, dict) and not (isinstance(o, PDict) and o.is_symbolic()):
            if set(dict.keys(self)) != set(dict.keys(o)):
                return False
            return core.s_and(*[veq(dict.__getitem__(self, k), dict.__getitem__(o, k)) for k in dict.keys(self)])
        raise Unsupported("dict equality")

    __hash__ = None


class LazyDict:
    """A dict of unknown contents, queried by concrete keys: presence and value are created on
    first use by `spec(key)`, which returns a function making the value."""

    def __init__(self, name, valuef):
        self.name, self.valuef = name, valuef
        self.present, self.vals = {}, {}

    def has(self, k):
        if is_sym(k):
            raise Unsupported("symbolic key in lazy dict")
        if k not in self.present:
            self.present[k] = SBool(z3.Const(f"{self.name}.has[{k}]", z3.BoolSort()))
        return self.present[k]

    def scontains(self, k):
        return self.has(k)

    def __contains__(self, k):
        return bool(self.has(k))

    def value(self, k):
        if k not in self.vals:
            self.vals[k] = self.valuef(k)
        return self.vals[k]

    def __getitem__(self, k):
        if bool(self.has(k)):
            return self.value(k)
        raise KeyError(k)

    getitem = __getitem__

    def get(self, k, d=None):
        if bool(self.has(k)):
            return self.value(k)
        return d

    def __iter__(self):
        raise Unsupported("iteration over lazy dict")

    def __bool__(self):
        raise Unsupported("truth of lazy dict")
