"""P19: no state is shared between messages; languages are scoped (effects of every function of httplint)."""
import ast
import enum
import inspect
import re
import sys
import textwrap
import types
import z3
from pyvc import core
from pyvc.core import S, SStr, new_str, z3val, Unsupported
from pyvc.verify import Contract, expect_ok
from props.p02 import Calls, names
from props.p03 import LOCALES, modules, note_classes, render_stubs
import httplint.i18n as I18N
import httplint.note as N

# --- what outlives a message ---------------------------------------------------------------------
KNOWN = {  # objects that are shared, and why they carry nothing from one message to another
    ("httplint.i18n", "_translations_cache"): "keyed by language (contract get_translations)",
    ("httplint.i18n", "_locale_var"): "restored when its scope ends (contract set_locale)",
    ("httplint.field.description", "_linter"): "describes fields; no message is linted with it",
    ("httplint.note", "_md_local"): "reset before each use (contract rendering)",
}
MUTATORS = {"append", "add", "update", "setdefault", "pop", "extend", "insert", "remove", "clear", "discard", "sort", "reverse", "popitem",
            "appendleft", "popleft", "__setitem__", "__delitem__", "set", "difference_update", "intersection_update", "symmetric_difference_update",
            "move_to_end", "subtract", "send"}
PLAIN = (str, bytes, int, float, complex, bool, type(None), type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, property,
         staticmethod, classmethod, re.Pattern, enum.Enum, types.GenericAlias, range, types.MethodType, types.MemberDescriptorType,
         types.GetSetDescriptorType, types.MappingProxyType, type(Ellipsis), types.UnionType)


def plain(v, d=0):
    """does an object never change?"""
    if isinstance(v, (tuple, frozenset)):
        return all(plain(x, d + 1) for x in v)
    if isinstance(v, PLAIN):
        return True
    m = type(v).__module__
    if m in ("typing", "http_sf.types", "decimal", "functools", "_frozen_importlib", "argparse", "abc", "_abc", "__future__", "ast", "typing_extensions") or m.startswith(("http_sf", "_thread")):
        return True
    return m.startswith(("importlib", "_frozen_importlib")) or frozen(type(v)) and all(plain(x, d + 1) for x in getattr(v, "__dict__", {}).values())


def frozen(cls):
    """a class of the library whose methods, but for its constructor, never assign to an attribute"""
    if not cls.__module__.startswith("httplint") or issubclass(cls, (list, dict, set, bytearray)):
        return False
    for k in cls.__mro__:
        for n, f in vars(k).items():
            f = getattr(f, "__func__", None) or getattr(f, "fget", None) or f
            if n not in ("__init__", "__new__") and isinstance(f, types.FunctionType) and f.__module__.startswith("httplint"):
                for x in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(f)))):
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.Name) and x.id in ("setattr", "__dict__"):
                        return False
    return True


def shared():
    """(owner, name) -> object: what modules and classes of the library hold that can change"""
    out = {}
    for m in modules():
        for n, v in list(vars(m).items()):
            if n.startswith("__") or plain(v) or getattr(v, "__module__", None) == "builtins":
                continue
            out[m.__name__, n] = v
        for c in vars(m).values():
            if isinstance(c, type) and c.__module__ == m.__name__ and not any("Test" in k.__name__ for k in c.__mro__):
                for n, v in list(vars(c).items()):
                    if (n.startswith("__") and n not in ("__slots__",)) or n.startswith(("_abc_", "_member", "_value2", "_unhash", "_generate", "_new_member", "_use_args", "_sort_order", "_is_protocol", "_hashable")) or plain(v):
                        continue
                    if isinstance(c, enum.EnumMeta):
                        continue
                    out[f"{m.__name__}.{c.__qualname__}", n] = v
    return out


class Effects:
    """the writes of every function to what may be shared"""

    def __init__(self):
        self.cs = Calls()
        self.shared = shared()
        self.class_names = {n for (o, n), v in self.shared.items() if o.count(".") and self.is_class(o)}
        self.by_mod = {}
        for (o, n), v in self.shared.items():
            self.by_mod.setdefault(o, {})[n] = v
        self.writes = []  # (where, what, node kind, memo?)

    def is_class(self, o):
        m, _, c = o.rpartition(".")
        return m in sys.modules and isinstance(getattr(sys.modules[m], c.split(".")[0], None), type)

    # what an expression may be: None (made here or part of a message), or the name of a shared thing
    def origin(self, mod, fns, cls, e, depth=0):
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            for f in fns:
                vs = self.cs.reaching(f, e) if isinstance(f, ast.FunctionDef) else []
                loops = [x for x in ast.walk(f) if isinstance(x, ast.For) and any(isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(x.target))]
                if vs or loops:
                    got = [self.origin(mod, fns, cls, v, depth + 1) for v in vs]
                    got += [self.element(mod, fns, cls, x.iter, depth + 1) for x in loops]
                    return next((g for g in got if g), None)
                if e.id in self.cs.params(f) if isinstance(f, (ast.FunctionDef, ast.Lambda)) else False:
                    if e.id == "cls" or (e.id == "self" and False):
                        return f"the class {cls.name}" if cls is not None else "a class"
                    return None
            v = getattr(mod.m, e.id, None)
            if v is None:
                return None
            if isinstance(v, type) and (v.__module__ or "").startswith("httplint"):
                return f"the class {e.id}"
            if isinstance(v, types.ModuleType) and v.__name__.startswith("httplint"):
                return f"the module {e.id}"
            for (o, n), w in self.shared.items():
                if w is v:
                    return f"{o}.{n}"
            return None
        if isinstance(e, ast.Attribute):
            o = self.origin(mod, fns, cls, e.value, depth + 1)
            if o:
                if o.startswith(("the class", "the module")):
                    hit = next((f"{a}.{n}" for (a, n) in self.shared if n == e.attr), None)
                    return hit
                return o
            # an attribute of a message, field or note that its class may hold
            if e.attr in self.class_names and not self.own(e.attr):
                return next(f"{a}.{n}" for (a, n) in self.shared if n == e.attr and self.is_class(a))
            if e.attr == "__class__":
                return "a class"
            return None
        if isinstance(e, (ast.Subscript, ast.Starred)):
            return self.origin(mod, fns, cls, e.value, depth + 1)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "setdefault", "pop"):
                return self.origin(mod, fns, cls, e.func.value, depth + 1)
            if isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
                return "a class"
            if isinstance(e.func, ast.Name) and e.func.id in ("iter", "vars", "getattr") and e.args:
                return self.origin(mod, fns, cls, e.args[0], depth + 1)
            return None
        if isinstance(e, ast.IfExp):
            return self.origin(mod, fns, cls, e.body, depth + 1) or self.origin(mod, fns, cls, e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            return next((o for o in (self.origin(mod, fns, cls, v, depth + 1) for v in e.values) if o), None)
        return None

    def element(self, mod, fns, cls, e, depth):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "values"):
            return self.origin(mod, fns, cls, e.func.value, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "zip", "reversed", "sorted", "list"):
            return next((o for o in (self.origin(mod, fns, cls, a, depth) for a in e.args) if o), None)
        if isinstance(e, ast.Call):
            return None
        return self.origin(mod, fns, cls, e, depth)

    def own(self, attr):
        """do all instances get an object of their own for an attribute, in every class that has a shared one?"""
        for (a, n) in self.shared:
            if n == attr and self.is_class(a):
                m, _, c = a.rpartition(".")
                k = getattr(sys.modules[m], c, None)
                init = k and inspect.getattr_static(k, "__init__", None)
                mod = next((x for x in self.cs.mods if x.m.__name__ == m), None)
                found = False
                for x in ast.walk(mod.tree) if mod else ():
                    if isinstance(x, ast.ClassDef) and x.name == c:
                        for f in x.body:
                            if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                                found = any(isinstance(y, (ast.Assign, ast.AnnAssign)) and any(
                                    ast.unparse(t) == f"self.{attr}" for t in (y.targets if isinstance(y, ast.Assign) else [y.target])) and
                                    y.value is not None and isinstance(y.value, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)) for y in ast.walk(f))
                if not found:
                    return False
        return True

    def memo(self, fns, node, what):
        """is something added, under a key that isn't there, to a mapping that is empty at first?"""
        if next((v for (a, n), v in self.shared.items() if f"{a}.{n}" == what), None) != {}:
            return False
        for f in fns:
            for x in ast.walk(f):
                if isinstance(x, ast.If) and any(y is node for y in ast.walk(x)) and any(
                        isinstance(y, ast.Compare) and isinstance(y.ops[0], (ast.NotIn, ast.Is)) for y in ast.walk(x.test)):
                    return True
        return isinstance(node, ast.Call) and node.func.attr == "setdefault"

    def scan(self, mod):
        for x in ast.walk(mod.tree):
            fns, cls = mod.owner.get(x, ((), None))
            if not fns:
                continue
            if any(f.name == "__init_subclass__" for f in fns if isinstance(f, ast.FunctionDef)):
                continue
            where = ".".join(([cls.name] if cls else []) + [getattr(f, "name", "lambda") for f in fns[::-1]])
            if isinstance(x, ast.Global):
                for n in x.names:
                    yield where, f"{mod.m.__name__}.{n}", True
            targets = []
            if isinstance(x, ast.Assign):
                targets = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                targets = [x.target]
            elif isinstance(x, ast.Delete):
                targets = x.targets
            elif isinstance(x, ast.For):
                targets = [x.target]
            for t in [y for t in targets for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    o = self.origin(mod, fns, cls, t.value)
                    if o is None and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Call) and "__class__" in ast.unparse(t.value):
                        o = "a class"
                    if o:
                        yield where, (o if isinstance(t, ast.Subscript) or not o.startswith(("the ", "a class")) else f"{o}: {t.attr}"), \
                            isinstance(t, ast.Subscript) and self.memo(fns, x, o)
                elif isinstance(t, ast.Name) and isinstance(x, ast.AugAssign):
                    o = self.origin(mod, fns, cls, t)
                    v = o and next((w for (a, n), w in self.shared.items() if f"{a}.{n}" == o), None)
                    if isinstance(v, (list, dict, set)):
                        yield where, o, False
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    o = self.origin(mod, fns, cls, f.value)
                    if o and not o.startswith(("the ", "a class")):
                        yield where, o, self.memo(fns, x, o)
                if isinstance(f, ast.Name) and f.id == "setattr" and x.args:
                    o = self.origin(mod, fns, cls, x.args[0])
                    if o:
                        yield where, o, False
                if isinstance(f, ast.Name) and f.id == "next" and x.args:
                    o = self.origin(mod, fns, cls, x.args[0])
                    if o and not o.startswith(("the ", "a class")):
                        yield where, o, False


ALLOWED = {  # writes that the contracts below are about
    ("httplint.i18n", "get_translations"): "httplint.i18n._translations_cache",
    ("httplint.i18n", "set_locale"): "httplint.i18n._locale_var",
    ("httplint.note", "_get_markdown"): "httplint.note._md_local",
}


def effects(ctx):
    """no function changes what outlives a message"""
    e = Effects()
    known = {f"{a}.{n}" for a, n in KNOWN}
    odd = []
    for (o, n), v in sorted(e.shared.items(), key=lambda x: x[0]):
        if (o, n) in KNOWN:
            continue
        if not isinstance(v, (list, dict, set)):
            odd.append(f"{o}.{n} ({type(v).__name__})")
    count = 0
    maybe = []
    for mod in e.cs.mods:
        if mod.m.__name__.endswith("field.tests"):
            continue
        for where, what, memo in e.scan(mod):
            count += 1
            if ALLOWED.get((mod.m.__name__, where.split(".")[-1])) == what:
                continue
            if memo:
                maybe.append(f"{mod.m.__name__}.{where}: {what}")
                continue
            ctx.prove(False, f"{mod.m.__name__}.{where} does not change {what}, which outlives the message")
    ctx.prove(True, "no other function changes what outlives a message")
    if odd or maybe:
        raise Unsupported(f"shared objects: {odd}; caches: {maybe}")
    ctx.cover("writes" if count else "none")


def defaults(ctx):
    """default values of parameters and instance attributes are not shared mutable objects"""
    cs = Calls()
    for mod in cs.mods:
        for f in [x for x in ast.walk(mod.tree) if isinstance(x, (ast.FunctionDef, ast.Lambda))]:
            ds = f.args.defaults + [d for d in f.args.kw_defaults if d is not None]
            for d in ds:
                ctx.prove(not isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)),
                          f"{mod.m.__name__}.{getattr(f, 'name', 'lambda')}: a default is made once for all calls")
                if isinstance(d, ast.Call):
                    raise Unsupported(f"{mod.m.__name__}.{getattr(f, 'name', 'lambda')} has a default {ast.unparse(d)}")
            for dec in getattr(f, "decorator_list", ()):
                if re.search(r"cache", ast.unparse(dec)):
                    raise Unsupported(f"{mod.m.__name__}.{f.name} is cached")


SOURCES = re.compile(r"^(time\.(time|monotonic|perf_counter)|random\.|os\.(environ|getenv|urandom|getpid)|uuid\.|hash$|secrets\.|datetime\.(datetime\.)?(now|utcnow|today))")


def sources(ctx):
    """nothing but the message is looked at: no clock, random number, environment or object identity"""
    for mod in Calls().mods:
        for x in ast.walk(mod.tree):
            fns, cls = mod.owner.get(x, ((), None))
            if not fns or not isinstance(x, ast.Call):
                continue
            if cls is not None and any("TestCase" in ast.unparse(b) for b in cls.bases):
                continue
            n = ast.unparse(x.func)
            ctx.prove(not SOURCES.match(n), f"{mod.m.__name__}.{fns[-1].name if hasattr(fns[-1], 'name') else 'lambda'} does not use {n}") if SOURCES.match(n) else None
    ctx.prove(True, "no other function looks at a clock, random numbers, the environment or identities")


# --- languages ----------------------------------------------------------------------------------
class Left(Exception):
    pass


def locale_scope(ctx):
    """for any language before, and any in the scope, however the scope ends"""
    how = ctx.choose(4, "the scope ends")
    before, inner, deeper = "xx", ["yy", None, ""][ctx.choose(3, "language")], "zz"
    var = I18N._locale_var
    token = var.set(before)
    try:
        m = expect_ok(ctx, "set_locale", I18N.set_locale, inner)
        m.__enter__()
        ctx.prove(var.get() == (inner or "en"), "the language of the scope is selected")
        if how == 3:
            with I18N.set_locale(deeper):
                ctx.prove(var.get() == deeper, "scopes nest")
            ctx.prove(var.get() == (inner or "en"), "the outer scope's language is back")
        try:
            if how in (0, 3):
                m.__exit__(None, None, None)
            elif how == 1:
                e = Left()
                r = m.__exit__(Left, e, None)
                ctx.prove(not r, "the error goes on")
            else:
                m.gen.close()
        except Left:
            pass
        ctx.prove(var.get() == before, "the language from before the scope is back")
        ctx.cover(["done", "error", "closed", "nested"][how])
    finally:
        var.reset(token)


class Catalogue:
    def __init__(self, of):
        self.of = of


class Cache:
    """catalogues that were loaded before, for any languages: each is of the language it is kept for"""

    pv_model = True

    def __init__(self, ctx):
        self.ctx, self.asked, self.n = ctx, [], 0

    def entry(self, k):
        for kk, v in self.asked:
            if bool(core.mkbool(z3val(kk) == z3val(k))):
                return v
        self.n += 1
        v = Catalogue(k) if self.ctx.decide(z3.Bool(f"kept{self.n}")) else None
        self.asked.insert(0, (k, v))
        return v

    def __contains__(self, k):
        return self.entry(k) is not None

    def __getitem__(self, k):
        v = self.entry(k)
        if v is None:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        v = self.entry(k)
        return default if v is None else v

    def __setitem__(self, k, v):
        self.ctx.prove(isinstance(v, Catalogue) and z3val(v.of) == z3val(k), "each language has its own catalogue")
        self.asked.insert(0, (k, v))

    def setdefault(self, k, v):
        if self.entry(k) is None:
            self[k] = v
        return self.entry(k)


def translations(ctx):
    """whatever was loaded before, the catalogue is that of the language selected, and the cache stays right"""
    loads = []

    def load(cls, d=None, locales=None, *a, **k):
        if not isinstance(cls, type):  # called as a plain function
            d, locales = cls, d if locales is None else locales
        ls = [locales] if isinstance(locales, str) or not isinstance(locales, (list, tuple)) else list(locales)
        if len(ls) != 1:
            raise Unsupported("a catalogue of several languages")
        loads.append(ls[0])
        return Catalogue(ls[0])

    from babel.support import Translations

    ctx.stubs[f"{Translations.load.__func__.__module__}.Translations.load"] = load
    ctx.stubs["gettext.translation"] = load
    saved = I18N._translations_cache
    cache = I18N._translations_cache = Cache(ctx)
    lang = new_str("language")
    tok = I18N._locale_var.set(lang)
    try:
        got = expect_ok(ctx, "get_translations", I18N.get_translations)
        ctx.prove(isinstance(got, Catalogue) and z3val(got.of) == z3val(lang), "the catalogue is that of the language selected")
        ctx.cover("loaded" if loads else "kept")
    finally:
        I18N._locale_var.reset(tok)
        I18N._translations_cache = saved


class ModelMd:
    """Markdown keeps what it saw of the text before until it is reset"""

    pv_model = True
    dirty = False

    def reset(self):
        self.dirty = False
        return self

    def convert(self, text):
        core.ctx().prove(not self.dirty, "the converter is reset before it is used")
        self.dirty = True
        return text


def rendering(ctx):
    """showing a note changes nothing of it, and shows the same whatever was shown in between, in any language"""
    md = ModelMd()
    for cls in note_classes():
        n = cls.__new__(cls)
        child = cls.__new__(cls)
        vs = {v: SStr(z3.Const(v, S)) for v in names(cls)}
        for x in (n, child):
            x.subject, x.subnotes, x.vars = "subject", [], dict(vs)
        n.subnotes.append(child)
        n.category, n.level = cls.category, cls.level
        state = {k: v for k, v in vars(n).items()}
        kept = dict(n.vars)
        seen = {}
        for loc in ("en", "fr", "en", "ja", "fr"):
            ctx.stubs.update(render_stubs(loc))
            ctx.stubs["httplint.note._get_markdown"] = lambda: md
            got = tuple(z3val(expect_ok(ctx, f"{cls.__name__}.{w}", getattr(n, w))) for w in ("_get_summary", "_get_detail", "__str__"))
            if loc in seen:
                ctx.prove(all(a.eq(b) for a, b in zip(got, seen[loc])), f"{cls.__name__} shows the same again")
            seen[loc] = got
        ctx.prove(vars(n).keys() == state.keys() and all(vars(n)[k] is state[k] for k in state) and n.subnotes == [child] and
                  n.vars.keys() == kept.keys() and all(n.vars[k] is kept[k] for k in kept), f"{cls.__name__} is left as it was")
    ctx.cover("rendered")


def fresh_defaults(ctx):
    """notes' default variables are copied, not shared"""
    d = {"default": new_str("d")}
    ns, other = N.Notes(d), N.Notes(d)
    cls = note_classes()[0]
    n = expect_ok(ctx, "Notes.add", ns.add, "s", cls, own=new_str("o"))
    c = expect_ok(ctx, "add_child", n.add_child, cls, more=new_str("m"))
    ctx.prove(set(d) == {"default"} and set(ns._default_vars) == {"default"}, "the defaults stay as they were")
    ctx.prove(set(n.vars) == {"default", "own"}, "the parent's variables stay as they were")
    ctx.prove(c.vars is not n.vars and n.vars is not ns._default_vars, "each note has variables of its own")
    ctx.prove(len(other) == 0 and other.data is not ns.data and c.subnotes is not n.subnotes, "each message and note has a list of its own")


def contracts():
    return [
        Contract("effects", effects, functions=["every function of httplint"], covers=["writes"]),
        Contract("defaults", defaults, functions=["every function of httplint"]),
        Contract("sources", sources, functions=["every function of httplint"]),
        Contract("set_locale", locale_scope, functions=["httplint.i18n.set_locale"], covers=["done", "error", "closed", "nested"]),
        Contract("get_translations", translations, functions=["httplint.i18n.get_translations"], covers=["loaded", "kept"]),
        Contract("rendering", rendering, functions=["httplint.note.Note._get_summary", "httplint.note.Note._get_detail", "httplint.note.Note.__str__"], covers=["rendered"]),
        Contract("Notes", fresh_defaults, functions=["httplint.note.Notes.add", "httplint.note.Note.add_child"]),
    ]
