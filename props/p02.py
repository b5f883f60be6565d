"""P02: every note renders, with all its variables (httplint/note.py, i18n.py, util.py and every call that makes a note)."""
import ast
import inspect
import re
import sys
import z3
from pyvc import core
from pyvc.core import S, SStr, is_sym, new_int, new_str, z3val, Unsupported
from pyvc.ghost import NS, GhostNotes, notes
from pyvc.runtime import LoopSpec
from pyvc.verify import Contract, expect_ok
from props.p03 import LOCALES, modules, note_classes, pieces, render_stubs
import httplint.i18n as I18N
import httplint.note as N
import httplint.util as U

NAMED = re.compile(r"%(?:\(([^)]*)\)s|(%))")
OTHER = re.compile(r"%(?!\([^)]*\)s|%)")


def names(cls):
    """the variables that a class's templates need, in any language"""
    out = set()
    for loc in LOCALES:
        with I18N.set_locale(loc):
            for t in (cls._summary, cls._text):
                t = I18N.translate(t)
                out |= {m.group(1) for m in NAMED.finditer(t) if m.group(1) is not None}
    return out


# --- rendering ---------------------------------------------------------------------------------
def render(locale):
    def body(ctx):
        ctx.stubs.update(render_stubs(locale))

        class Md:
            pv_model = True

            def reset(self):
                return self

            def convert(self, text):
                return text

        ctx.stubs["httplint.note._get_markdown"] = Md
        for cls in note_classes():
            n = cls.__new__(cls)
            n.subject, n.subnotes = "subject", []
            vs = names(cls)
            n.vars = {v: SStr(z3.Const(v, S)) for v in vs}
            with I18N.set_locale(locale):
                templates = {"summary": I18N.translate(cls._summary), "detail": I18N.translate(cls._text)}
            for what, out in (("summary", expect_ok(ctx, f"{cls.__name__}.summary", n._get_summary)),
                              ("str", expect_ok(ctx, f"str({cls.__name__})", n.__str__)),
                              ("detail", expect_ok(ctx, f"{cls.__name__}.detail", n._get_detail))):
                t = templates["detail" if what == "detail" else "summary"]
                ps = pieces(z3val(out))
                lit = "".join(p for p in ps if isinstance(p, str))
                if what != "detail":
                    ctx.prove(lit.strip() != "", f"{cls.__name__}: the {what} has text of its own")
                    want = NAMED.sub(lambda m: f"\0{m.group(1)}\0" if m.group(1) else "%", t)
                    got = "".join(p if isinstance(p, str) else f"\0{p.decl().name()}\0" for p in ps)
                    ctx.prove(got == want, f"{cls.__name__}: the {what} is the template with its variables filled in", info=lambda: got)
                else:
                    ctx.prove("%(" not in lit, f"{cls.__name__}: no variable is left in the detail")
                    have = {x for p in ps if not isinstance(p, str) for x in leaves(p)}
                    for v in {m.group(1) for m in NAMED.finditer(t) if m.group(1)}:
                        ctx.prove(v in have, f"{cls.__name__}: the detail shows {v}")
            ctx.cover("with variables" if vs else "without")

    return body


def leaves(e):
    if e.num_args() == 0:
        return {e.decl().name()}
    return {x for y in e.children() for x in leaves(y)}


def adding(ctx):
    """what a note is made with"""
    mine = [c for c in note_classes() if c.category is N.categories.GENERAL][0]
    other = [c for c in note_classes() if c.category is not N.categories.GENERAL][0]
    d, e, f, g = (new_str(x) for x in "defg")
    ns = N.Notes({"default": d, "both": e})
    for cls in (mine, other):
        n = expect_ok(ctx, "Notes.add", ns.add, "subject", cls, category=N.categories.CACHING, own=f, both=g)
        ctx.prove(set(n.vars) == {"default", "both", "own"}, "a note has the defaults and what it is given")
        ctx.prove(n.vars["default"] == d, "defaults are kept")
        ctx.prove(core.s_and(n.vars["own"] == f, n.vars["both"] == g), "what a note is given counts")
        ctx.prove(type(n) is cls and n.subject == "subject" and ns[-1] is n, "the note is added")
        ctx.prove(n.category is (N.categories.CACHING if cls is mine else cls.category), "general notes take the category given")
        c = expect_ok(ctx, "add_child", n.add_child, other, own=d, more=e)
        ctx.prove(set(c.vars) == {"default", "both", "own", "more"}, "a subnote also has its parent's variables")
        ctx.prove(core.s_and(c.vars["default"] == d, c.vars["own"] == d, c.vars["more"] == e), "what a subnote is given counts")
        ctx.prove(type(c) is other and n.subnotes[-1] is c and len(ns) == ns.index(n) + 1, "the subnote is added to its parent")
        ctx.prove(set(n.vars) == {"default", "both", "own"}, "the parent's variables stay")


# --- the calls that make notes -------------------------------------------------------------------
FIELD = {"message_type", "field_name"}
WITH_TYPE = {"finish", "evaluate", "post_check"}  # get field_type too (contract "what fields report with")


class Site:
    def __init__(self, where, cls, keys, open_):
        self.where, self.cls, self.keys, self.open = where, cls, keys, open_


class Module:
    def __init__(self, m):
        self.m = m
        self.tree = ast.parse(inspect.getsource(m))
        self.owner = {}
        self._visit(self.tree, (), None)

    def _visit(self, node, fns, cls):
        for x in ast.iter_child_nodes(node):
            self.owner[x] = (fns, cls)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                self._visit(x, (x,) + fns, cls)
            elif isinstance(x, ast.ClassDef):
                self._visit(x, fns, x)
            else:
                self._visit(x, fns, cls)

    def note(self, name):
        v = getattr(self.m, name, None)
        for x in ast.walk(self.tree) if v is None else ():
            if isinstance(x, ast.ImportFrom) and x.module in sys.modules:
                for a in x.names:
                    if (a.asname or a.name) == name:
                        v = getattr(sys.modules[x.module], a.name, None)
        return v if isinstance(v, type) and issubclass(v, N.Note) else None


class Calls:
    def __init__(self):
        self.mods = [Module(m) for m in modules()]
        self.calls = {}
        for mod in self.mods:
            for x in ast.walk(mod.tree):
                if isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
                    self.calls.setdefault(n, []).append((mod, x))

    def assigned(self, fn, name):
        return [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets)] + \
            [x.value for x in ast.walk(fn) if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == name and x.value]

    def reaching(self, fn, use):
        """what a name may be where it is used"""
        found = []  # (position, does it dominate the use?, value)

        def block(stmts, around):
            for s in stmts:
                inside = any(y is use for y in ast.walk(s))
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(
                        isinstance(t, ast.Name) and t.id == use.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                    found.append((s.lineno, around, s.value))
                for f in ("body", "orelse", "finalbody", "handlers"):
                    sub = getattr(s, f, None) or []
                    for h in sub:
                        if isinstance(h, ast.ExceptHandler):
                            block(h.body, around and inside and any(y is use for y in ast.walk(h)))
                    sub = [h for h in sub if isinstance(h, ast.stmt)]
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) or inside:
                        block(sub, around and any(y is use for h in sub for y in ast.walk(h)))
        body = fn.body if isinstance(fn.body, list) else []
        block(body, True)
        before = [x for x in found if x[0] < use.lineno]
        dom = max([x[0] for x in before if x[1]], default=None)
        if dom is not None and not any(isinstance(y, ast.Name) and y is use for f2 in ast.walk(fn) if isinstance(f2, (ast.FunctionDef, ast.Lambda)) and f2 is not fn for y in ast.walk(f2)):
            return [v for l, _, v in before if l >= dom]
        return [v for _, _, v in found]

    def params(self, fn):
        a = fn.args
        return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]

    def classes(self, mod, fns, e, depth=0):
        """the note classes that an expression may be: (set, parameters of enclosing functions that it may be); None: something else"""
        if depth > 4:
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.classes(mod, fns, e.body, depth), self.classes(mod, fns, e.orelse, depth)
            return None if a is None or b is None else (a[0] | b[0], a[1] | b[1])
        if isinstance(e, ast.Constant) and e.value is None:
            return set(), set()
        if isinstance(e, ast.Name):
            c = mod.note(e.id)
            if c and not any(self.assigned(f, e.id) for f in fns):
                return {c}, set()
            for f in fns:
                vs = self.assigned(f, e.id)
                if vs:
                    got = [self.classes(mod, fns, v, depth + 1) for v in vs]
                    return None if None in got else (set().union(*[g[0] for g in got]), set().union(*[g[1] for g in got]))
                loops = self.loops(f, e)
                if loops:
                    got = [self.classes(m2, f2, v, depth + 1) for at, l in loops for m2, f2, v in self.kept(mod, f, at, l)]
                    return None if None in got else (set().union(*[g[0] for g in got]), set().union(*[g[1] for g in got]))
                if isinstance(f, ast.FunctionDef) and e.id in self.params(f):
                    return set(), {(f, e.id)}
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Dict):
            got = [self.classes(mod, fns, v, depth + 1) for v in e.value.values]
            return None if None in got else (set().union(*[g[0] for g in got]), set().union(*[g[1] for g in got]))
        return None

    def loops(self, fn, e):
        """the loops of a function that bind a name (the one around its use, if there is one): (position in the element, container)"""
        name = e.id
        out = []
        all_ = [x for x in ast.walk(fn) if isinstance(x, ast.For)]
        around = [x for x in all_ if any(y is e for y in ast.walk(x)) and any(
            isinstance(t, ast.Name) and t.id == name for t in ast.walk(x.target))]
        for x in around[-1:] or all_:
            if True:
                if isinstance(x.target, ast.Name) and x.target.id == name:
                    out.append((None, x.iter))
                elif isinstance(x.target, ast.Tuple):
                    out += [(i, x.iter) for i, t in enumerate(x.target.elts) if isinstance(t, ast.Name) and t.id == name]
        return out

    def kept(self, mod, fn, at, container):
        """what is put into a list: (module, functions, expression)"""
        src = ast.unparse(container)
        put = []
        if isinstance(container, (ast.Tuple, ast.List)):
            put += [(((fn,)), v) for v in container.elts]
        elif isinstance(container, ast.Name):
            for v in self.assigned(fn, container.id):
                put += [((fn,), w) for w in v.elts] if isinstance(v, (ast.List, ast.Tuple)) else [((fn,), v)]
        elif not src.startswith("self."):
            put.append(((fn,), container))
        for x in ast.walk(mod.tree if src.startswith("self.") else fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value) == src:
                fns = mod.owner[x][0]
                if x.func.attr == "append":
                    put.append((fns, x.args[0]))
                elif x.func.attr in ("extend", "insert"):
                    put.append((fns, x))
        for fns, v in put:
            if at is not None:
                v = v.elts[at] if isinstance(v, ast.Tuple) and at < len(v.elts) else x
            yield mod, fns, v

    def relayed(self, fns, call):
        """a call with the class and the variables from one element of a list (see the places that put it there)"""
        for f in fns:
            for x in ast.walk(f):
                if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple) and any(y is call for y in ast.walk(x)):
                    mine = {t.id for t in x.target.elts if isinstance(t, ast.Name)}
                    stars = [k.value for k in call.keywords if k.arg is None]
                    if stars and all(isinstance(s, ast.Name) and s.id in mine for s in stars) and any(
                            isinstance(a, ast.Name) and a.id in mine for a in call.args):
                        return True
        return False

    def base(self, mod, fns, cls, f):
        """the variables that come with calling f: (keys, are there maybe more?)"""
        if isinstance(f, ast.Attribute) and f.attr == "add" and ast.unparse(f.value).endswith("notes"):
            return {"message_type"}, False
        if isinstance(f, ast.Attribute) and f.attr == "add_child":
            more = set()
            if isinstance(f.value, ast.Name):
                for g in fns:
                    for v in self.assigned(g, f.value.id):
                        if isinstance(v, ast.Call) and self.keywords(mod, fns, cls, v) is not None:
                            k, o = self.keywords(mod, fns, cls, v)
                            more = k if not more else more & k
            return (more or {"message_type"}), not more
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and cls is not None:
            for x in ast.walk(cls):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and ast.unparse(x.targets[0]) == f"self.{f.attr}":
                    return self.partial(mod, fns, cls, x.value)
            return None
        if isinstance(f, ast.Name):
            for g in fns:
                vs = self.reaching(g, f)
                if vs:
                    got = [self.partial(mod, fns, cls, v) for v in vs]
                    if None in got:
                        return None
                    return set.intersection(*[k for k, _ in got]), any(o for _, o in got)
                if isinstance(g, ast.FunctionDef) and f.id in self.params(g):
                    if "add_note" not in f.id:
                        return None
                    return set(FIELD) | ({"field_type"} if g.name in WITH_TYPE else set()), self.special(mod, g, f.id)
            if "add_note" in f.id or "note_adder" in f.id:
                return {"message_type"}, True
        return None

    def special(self, mod, fn, param):
        """may a helper's add_note come with more than a field's?"""
        if fn.name in WITH_TYPE | {"parse", "handle_input", "pre_check"}:
            return False
        ps = self.params(fn)
        for m2, call in self.calls.get(fn.name, ()):
            fns, _ = m2.owner.get(call, ((), None))
            for a in [*call.args, *[k.value for k in call.keywords]]:
                if isinstance(a, ast.Call) and "partial" in ast.unparse(a.func) or isinstance(a, ast.Lambda):
                    return True
                if isinstance(a, ast.Name) and any(isinstance(v, ast.Call) and "partial" in ast.unparse(v.func) for f in fns for v in self.assigned(f, a.id)) \
                        and "offset" not in a.id:
                    return True
        return False

    def partial(self, mod, fns, cls, v):
        if isinstance(v, ast.Call) and getattr(v.func, "id", getattr(v.func, "attr", None)) == "partial":
            b = self.base(mod, fns, cls, v.args[0])
            return b and (b[0] | {k.arg for k in v.keywords if k.arg}, b[1] or any(k.arg is None for k in v.keywords))
        if isinstance(v, (ast.Attribute, ast.Name)):
            return self.base(mod, fns, cls, v)
        return None

    def keywords(self, mod, fns, cls, call):
        b = self.base(mod, fns, cls, call.func)
        if b is None:
            return None
        keys, open_ = set(b[0]), b[1]
        for k in call.keywords:
            if k.arg is not None:
                if k.arg != "category":
                    keys.add(k.arg)
                continue
            known = self.dict_keys(fns, k.value)
            if known is None:
                open_ = True
            else:
                keys |= known
        return keys, open_

    def dict_keys(self, fns, v):
        if isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys):
            return {k.value for k in v.keys}
        if isinstance(v, ast.Name):
            for f in fns:
                vs = self.assigned(f, v.id)
                if vs:
                    if any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and ast.unparse(x.value) == v.id or
                           isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value) == v.id or
                           isinstance(x, ast.AugAssign) and ast.unparse(x.target) == v.id for x in ast.walk(f)):
                        return None
                    got = [self.dict_keys((), w) for w in vs]
                    return None if None in got else set.intersection(*got)
        return None

    def sites(self):
        for mod in self.mods:
            for x in ast.walk(mod.tree):
                fns, cls = mod.owner.get(x, ((), None))
                if not fns:
                    continue
                where = f"{mod.m.__name__}.{'.'.join(([cls.name] if cls else []) + [getattr(f, 'name', 'lambda') for f in fns[::-1]])}"
                if isinstance(x, ast.Call):
                    kw = self.keywords(mod, fns, cls, x)
                    if kw is None:
                        continue
                    got = [self.classes(mod, fns, a) for a in x.args]
                    if self.relayed(fns, x) and None not in got:
                        continue
                    got = [g for g in got if g and (g[0] or g[1])]
                    yield mod, fns, cls, where, x, kw, got
                elif isinstance(x, ast.Tuple) and isinstance(x.ctx, ast.Load):
                    ds = [self.dict_keys(fns, e) for e in x.elts]
                    got = [self.classes(mod, fns, e) for e in x.elts]
                    got = [g for g in got if g and g[0]]
                    if got and any(d is not None for d in ds):
                        keys = set().union(*[d for d in ds if d is not None])
                        yield mod, fns, cls, where, x, (FIELD | keys, False), got

    def through(self, fn, param, depth=0):
        """what a parameter gets at the calls of its function: (module, call, classes, keyword arguments)"""
        out = []
        ps = self.params(fn)
        for mod, call in self.calls.get(fn.name, ()):
            if fn not in mod.owner and not (inspect.isfunction(getattr(mod.m, fn.name, None)) and fn.name in {
                    x.name for m2 in self.mods for x in m2.tree.body if x is fn}):
                continue  # another function of that name
            fns, cls = mod.owner.get(call, ((), None))
            off = 1 if ps and ps[0] in ("self", "cls") else 0
            arg = next((k.value for k in call.keywords if k.arg == param), None)
            i = ps.index(param) - off
            if arg is None and i < len(call.args):
                arg = call.args[i]
            extra = {k.arg for k in call.keywords if k.arg and k.arg not in ps}
            given = {p for j, p in enumerate(ps[off:]) if j < len(call.args)} | {k.arg for k in call.keywords if k.arg}
            open_ = any(k.arg is None for k in call.keywords)
            where = f"{mod.m.__name__}:{'.'.join(getattr(f, 'name', 'lambda') for f in fns[::-1])}"
            if arg is None:
                continue
            got = self.classes(mod, fns, arg)
            if got is None:
                out.append((mod, where, None, set(), set(), True))
                continue
            for c in got[0]:
                out.append((mod, where, c, extra, given, open_))
            for f2, p2 in got[1]:
                if depth < 3:
                    for m3, w3, c3, x3, g3, o3 in self.through(f2, p2, depth + 1):
                        out.append((m3, w3, c3, extra | x3, (given & g3) | (g3 & set(ps)), open_ or o3))
        return out


SUMMARY = {"check_media_type": ({"value"}, "ref_uri")}  # contract check_media_type below


def calls():
    """module name -> [(where, class, keys, undetermined)]"""
    cs = Calls()
    out, bad = {m.m.__name__: [] for m in cs.mods}, {}
    for mod, fns, cls, where, x, (keys, open_), got in cs.sites():
        name = mod.m.__name__
        is_add = isinstance(x, ast.Call)
        if is_add and not got:
            bad.setdefault(name, []).append(f"{where}: {ast.unparse(x)[:60]}")
            continue
        for g in got[:1]:
            for c in g[0]:
                out[name].append((where, c, keys, open_))
            for f, p in g[1]:
                if f.name in SUMMARY:
                    own, opt = SUMMARY[f.name]
                    for m3, w3, c3, extra, given, o3 in cs.through(f, p):
                        if c3 is None:
                            bad.setdefault(m3.m.__name__, []).append(f"{w3}: a note of {f.name}")
                        else:
                            out[m3.m.__name__].append((w3, c3, FIELD | own | ({opt} & given), False))
                    continue
                star = f.args.kwarg and any(k.arg is None and getattr(k.value, "id", None) == f.args.kwarg.arg for k in x.keywords)
                only = all(k.arg or getattr(k.value, "id", None) == f.args.kwarg.arg for k in x.keywords) if f.args.kwarg else not open_
                for m3, w3, c3, extra, given, o3 in cs.through(f, p):
                    if c3 is None:
                        bad.setdefault(m3.m.__name__, []).append(f"{w3}: a note of {f.name}")
                    else:
                        out[m3.m.__name__].append((w3, c3, keys | (extra if star else set()), (open_ and not only) or (star and o3)))
    return out, bad


_calls = None


def table():
    global _calls
    if _calls is None:
        _calls = calls()
    return _calls


def call_sites(name):
    def body(ctx):
        out, bad = table()
        for where, c, keys, open_ in out[name]:
            need = names(c)
            missing = need - keys
            if missing and open_ or missing == {"field_type"}:
                raise Unsupported(f"{where}: {c.__name__} needs {missing}")
            ctx.prove(not missing, f"{where}: {c.__name__} has all its variables", info=lambda: f"needs {sorted(missing)}")
        if bad.get(name):
            raise Unsupported(f"notes that are not named: {bad[name]}")

    return body


GIVEN = {"parse": FIELD, "handle_input": FIELD, "pre_check": FIELD, **{n: FIELD | {"field_type"} for n in WITH_TYPE}}


def given(ctx):
    """what fields' methods are given to make notes with has the variables of every field's note"""
    cs = Calls()
    n = 0
    for mod in cs.mods:
        for x in ast.walk(mod.tree):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GIVEN):
                continue
            fns, cls = mod.owner.get(x, ((), None))
            if not fns or mod.m.__name__ == "httplint.field.tests":
                continue
            for a in [*x.args, *[k.value for k in x.keywords]]:
                if not isinstance(a, (ast.Name, ast.Attribute, ast.Call)):
                    continue
                b = cs.partial(mod, fns, cls, a)
                if b is None:
                    continue
                where = f"{mod.m.__name__}.{fns[-1].name}"
                need = GIVEN[x.func.attr]
                if not need <= b[0] and b[1]:
                    raise Unsupported(f"what {where} gives to {x.func.attr}")
                n += 1
                ctx.prove(need <= b[0], f"{where}: what {x.func.attr} is given makes notes with {', '.join(sorted(need))}", info=lambda: str(b))
    ctx.prove(n >= 5, "there are such calls")


def type_notes(ctx):
    """check_media_type, by the summary that its callers use"""
    import httplint.field.utils as FU

    class BAD(N.Note):
        category = N.categories.GENERAL
        level = N.levels.BAD

    v = new_str("media_type")
    gn = GhostNotes("message")
    ref = [None, new_str("ref_uri")][ctx.choose(2, "ref_uri given")]
    flags = [bool(ctx.choose(2, n)) for n in ("allow_wildcard", "check_token")]
    from pyvc.ghost import add_note_fn

    expect_ok(ctx, "check_media_type", FU.check_media_type, v, add_note_fn(), BAD, ref, *flags)
    for r in notes():
        if r.note is BAD:
            ctx.cover("bad")
            ctx.prove("value" in r.vars and (ref is None or "ref_uri" in r.vars), "the note has value, and ref_uri if that is given")
        else:
            ctx.cover("other")
            ctx.prove(names(r.note) <= FIELD | set(r.vars), "other notes have their variables")


def relative(ctx):
    """RelativeTime is shown for all integers and any moderate reals"""
    k = ctx.choose(3, "show_sign")
    whole = ctx.choose(2, "integers")
    u, n = (new_int(x) if whole else core.SReal(z3.Real(x)) for x in ("utime", "now"))
    r = expect_ok(ctx, "relative_time", U.relative_time, u, n, k)

    def timedelta(seconds):
        if not bool(core.s_and(seconds <= 86399999999999, seconds >= -86399999913600)):
            raise OverflowError("symbolic")
        return NS(kind="timedelta")

    def form(delta, **kw):
        ctx.prove(isinstance(delta, NS) or type(delta).__name__ == "timedelta", "a timedelta is formatted")
        return SStr(ctx.fresh("formatted", S))

    ctx.stubs.update({"datetime.timedelta": timedelta, "httplint.i18n.format_timedelta": form,
                      "httplint.i18n.translate": lambda m: m})
    out = expect_ok(ctx, "str(relative_time)", r.__str__)
    ctx.prove(getattr(out, "pytype", type(out)) is str, "it is shown as text")
    ctx.cover("sign" if k == 2 else "plain")


def shown_bytes(ctx):
    b = core.new_bytes("chunk")
    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec()}
    out = expect_ok(ctx, "display_bytes", U.display_bytes, b)
    ctx.prove(getattr(out, "pytype", type(out)) is str, "it is text")


def contracts():
    out = [Contract(f"Note rendering ({loc})", render(loc), functions=["httplint.note.Note._get_summary", "httplint.note.Note._get_detail", "httplint.note.Note.__str__"],
                    covers=["with variables", "without"]) for loc in LOCALES]
    out.append(Contract("Notes.add", adding, functions=["httplint.note.Notes.add", "httplint.note.Note.add_child", "httplint.note.Note.__init__"]))
    out += [Contract("what fields report with", given, functions=["httplint.field.section.FieldSection.process", "httplint.message.HttpMessageLinter.finish_content"]),
            Contract("check_media_type", type_notes, functions=["httplint.field.utils.check_media_type"], covers=["bad", "other"]),
            Contract("RelativeTime", relative, functions=["httplint.util.RelativeTime.__str__", "httplint.util.relative_time"], covers=["sign", "plain"]),
            Contract("display_bytes", shown_bytes, functions=["httplint.util.display_bytes"])]
    sites, bad = table()
    for name in sorted(sites):
        if sites[name] or bad.get(name):
            out.append(Contract(f"notes made in {name}", call_sites(name), functions=sorted({w.split(":")[0] for w, *_ in sites[name]})))
    return out
