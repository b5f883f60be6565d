"""P03: message data in the HTML detail of notes (httplint/note.py, util.py and what composes Markdown)."""
import ast
import importlib
import inspect
import pkgutil
import re
from html.parser import HTMLParser
import z3
import markupsafe
from markdown import Markdown
from pyvc import core, texts
from pyvc.core import S, SStr, is_sym, new_bool, new_int, new_str, z3val, Unsupported
from pyvc.runtime import LoopSpec, call, sym_iter
from pyvc.texts import prove_within, up, within
from pyvc.verify import Contract, expect_ok
from http_sf import DisplayString, Token
from pyvc.containers import Maker, PList, SList
from pyvc.ghost import NS, GhostNotes, add_note_fn, notes
from props import p23
import httplint.note as N
import httplint.i18n as I18N

LOCALES = ("en", "es", "fr", "ja", "zh")
# text in which all message data is inside code spans: PLAIN never starts one and never ends a line's markup
PLAIN = r"(?:[A-Za-z0-9 ,.:;'()/?=%-]|\n|\*\*|\* )"
SPAN = r"(?:`[^`\n\r]*[^`\n\r\x02\x03][^`\n\r]*`)"
BLOCK = rf"(?:(?:{PLAIN}+{SPAN})*{PLAIN}*)"  # may follow anything of its kind
SAFE = rf"(?:{SPAN}?(?:{PLAIN}+{SPAN})*{PLAIN}*)"
CONTENT = r"[^`\n\r]*[^`\n\r\x02\x03][^`\n\r]*"  # of a code span
NUMBER = r"(?:-?[0-9]+)"
LINE = r"[^\n\r]*"
ESCAPED = r"(?:[^<>&'\"]|&(?:lt|gt|amp|#34|#39|quot|apos);)*"


def modules():
    import httplint

    return [importlib.import_module(m.name) for m in pkgutil.walk_packages(httplint.__path__, "httplint.") if ".cli" not in m.name]


def note_classes():
    modules()
    out, todo = [], [N.Note]
    while todo:
        for c in todo.pop().__subclasses__():
            if c not in out and c.__module__.startswith("httplint"):
                out.append(c)
                todo.append(c)
    return sorted(out, key=lambda c: (c.__module__, c.__qualname__))


def variables(template):
    return sorted(set(re.findall(r"%\(([^)]*)\)", template)))


class SSafe(SStr):
    __slots__ = ()
    pytype = N.MarkdownSafe


def markdown_safe(x):
    return SSafe(x.e) if is_sym(x) else N.MarkdownSafe(x)


MD = Markdown(output_format="html")


class Places(HTMLParser):
    """where neutral tokens stand in a page"""

    def __init__(self, html):
        super().__init__(convert_charrefs=False)
        self.stack, self.text, self.bad = [], {}, []
        self.feed(html)
        self.close()

    def tokens(self, s):
        return re.findall(r"zq[0-9]+zq", s)

    def handle_starttag(self, tag, attrs):
        for t in self.tokens(tag) + [x for k, v in attrs for x in self.tokens(k) + self.tokens(v or "")]:
            self.bad.append((t, f"in a tag <{tag}>"))
        self.stack.append(tag)

    def handle_endtag(self, tag):
        if tag in self.stack:
            while self.stack.pop() != tag:
                pass

    def handle_data(self, d):
        for t in self.tokens(d):
            self.text.setdefault(t, []).append(tuple(self.stack))

    def handle_entityref(self, d):
        self.bad += [(t, "in an entity") for t in self.tokens(d)]

    handle_charref = handle_comment = handle_decl = handle_pi = unknown_decl = handle_entityref


class ModelMarkdown:
    """Markdown.convert: concrete text is converted; text with pre-composed parts is looked at part by part"""

    pv_model = True

    def reset(self):
        return self

    def convert(self, text):
        c = core.ctx()
        if not is_sym(text):
            return MD.reset().convert(text)
        parts = pieces(text.e)
        sym = [p for p in parts if not isinstance(p, str)]

        def page(show):
            n, out = 0, ""
            for p in parts:
                n += not isinstance(p, str)
                out += p if isinstance(p, str) else show(n)
            return MD.reset().convert(out)

        html = page(lambda n: f"zq{n}zq")
        pl = Places(html)
        block = []
        for n, p in enumerate(sym, 1):
            at = pl.text.get(f"zq{n}zq", [])
            if at and all("pre" in s for s in at):
                prove_within(SStr(p), LINE, "a line in a block of code is one line")
            elif at and all("code" in s for s in at):
                prove_within(SStr(p), CONTENT, "what is put into a code span fits it")
            else:
                prove_within(SStr(p), SAFE, "pre-composed Markdown shows message data in code only")
                block.append(n)
        html = page(lambda n: f"* `zq{n}zq`" if n in block else f"zq{n}zq")
        pl = Places(html)
        for n in range(1, len(sym) + 1):
            at = pl.text.get(f"zq{n}zq", [])
            c.prove(bool(at) and all("code" in s for s in at) and not pl.bad, "pre-composed Markdown stands where its code spans are code",
                    info=lambda: html)
        out = []
        for x in re.split(r"(zq[0-9]+zq)", html):
            m = re.fullmatch(r"zq([0-9]+)zq", x)
            if m:
                r = c.fresh("rendered", S)
                c.memo["upper", r.decl().name()] = ESCAPED
                out.append(SStr(r))
            elif x:
                out.append(x)
        from pyvc.models import str_join

        return str_join("", out)


def pieces(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return [core.zstr_value(e)]
    if e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for x in e.children() for p in pieces(x)]
    return [e]


def render_stubs(locale):
    """what is assumed of what detail calls: markupsafe, markdown, gettext (concrete templates are really translated)"""
    def escape(x):
        if not is_sym(x):
            return markupsafe.escape(x)
        f = z3.Function("html_escaped", S, S)
        core.ctx().memo["upper", "html_escaped"] = ESCAPED
        return SStr(f(z3val(x)))

    def translate(m):
        with I18N.set_locale(locale):
            return I18N.translate(m)

    def sub(pattern, repl, s, count=0, flags=0):
        from pyvc.models import re_sub, str_join, sub_with

        if not callable(repl):
            return re_sub(pattern, repl, s, count, flags)
        if not is_sym(s):
            return sub_with(pattern, repl, s, count, flags)
        out = []
        for p in pieces(z3val(s)):
            if isinstance(p, str):
                out.append(sub_with(pattern, repl, p, count, flags))
                continue
            # a placeholder in pre-composed Markdown
            m = re.search(pattern, "\ue000999\ue001", flags)
            c = core.ctx()
            c.prove(m is not None and pieces(z3val(call(repl, m)))[0] == m.group(), "what is no placeholder stays")
            r = c.fresh("replaced", S)
            c.memo["upper", r.decl().name()] = up(p).pattern
            out.append(SStr(r))
        return str_join("", out)

    return {"re.sub": sub, "httplint.note._get_markdown": ModelMarkdown, f"{markupsafe.escape.__module__}.escape": escape,
            "markupsafe.escape": escape, "markupsafe._speedups.escape": escape, "markupsafe.Markup": lambda x="": x,
            "httplint.i18n.translate": translate, "httplint.note.MarkdownSafe": markdown_safe}


LINKS = {"ref_uri", "deprecation_ref"}  # the library's own references (call sites: P02's contract of calls)


def judge(html, what, tokens=None):
    """the html has message data only as escaped text; returns the variables that stand elsewhere"""
    c = core.ctx()
    if not is_sym(html):
        return
    shown, sym = "", []
    for p in pieces(z3val(html)):
        if isinstance(p, str):
            shown += p
        else:
            sym.append(p)
            shown += f"zq{len(sym)}zq"
    for p in sym:
        prove_within(SStr(p), ESCAPED, f"{what}: message data is escaped")
    pl = Places(shown)
    inlink = {t for t, _ in pl.bad}
    bad = [i for i, p in enumerate(sym, 1) if f"zq{i}zq" in inlink and not any(
        v.decl().name() in LINKS for v in leaves(p))]
    c.prove(not bad, f"{what}: message data stands in text only", info=lambda: f"{pl.bad} {shown}")


def leaves(e):
    if e.num_args() == 0:
        return [e] if not z3.is_string_value(e) else []
    return [x for y in e.children() for x in leaves(y)]


def detail(locale):
    def body(ctx):
        ctx.stubs.update(render_stubs(locale))
        for cls in note_classes():
            with I18N.set_locale(locale):
                vs = variables(I18N.translate(cls._text))
            n = cls.__new__(cls)
            n.subject, n.subnotes = "subject", []
            n.vars = {v: SStr(z3.Const(v, S)) for v in vs}
            html = expect_ok(ctx, f"{cls.__name__}.detail", n._get_detail)
            judge(html, cls.__name__)
            ctx.cover("with message data" if vs else "without")

    return body


def code_text(ctx):
    import httplint.util as U

    v = new_str("value")
    out = expect_ok(ctx, "code_text", U.code_text, v)
    prove_within(out, CONTENT, "the text fits a code span")
    out = expect_ok(ctx, "code_text", U.code_text, new_int("number"))
    prove_within(out, NUMBER, "an integer is shown as digits")


# --- what the library composes -------------------------------------------------------------------
class SToken(SStr):
    __slots__ = ()
    pytype = Token

    def __eq__(self, o):
        return SStr(self.e) == (o.data if isinstance(o, (Token, DisplayString)) and not is_sym(o) else SStr(o.e) if is_sym(o) else o)

    __hash__ = None


class SDisplay(SToken):
    __slots__ = ()
    pytype = DisplayString


def anything(ctx, name, idx=None):
    """a Structured Fields value"""
    k = ctx.choose(7, f"type of {name}")
    return [lambda: SStr(ctx.fresh(name, S)), lambda: SToken(ctx.fresh(name, S)), lambda: SDisplay(ctx.fresh(name, S)),
            lambda: core.SInt(ctx.fresh(name, z3.IntSort())), lambda: core.SBool(ctx.fresh(name, z3.BoolSort())),
            lambda: core.SReal(ctx.fresh(name, z3.RealSort())), lambda: core.SBytes(ctx.fresh(name, S))][k]()


class Make:
    def __init__(self, f):
        self.f, self.shapes = f, {"any"}

    def __call__(self, idx):
        return self.f(idx)


def seq(name, f):
    return SList(name, maker=Make(f))


class Params:
    def __init__(self, name):
        c = core.ctx()
        self.seq = seq(name, lambda idx: (KEY(c, name), anything(c, "param_value")))

    def items(self):
        return self.seq


def KEY(c, name):
    """a Structured Fields key"""
    k = c.fresh("param_name", S)
    c.memo["upper", k.decl().name()] = r"(?:[a-z*][a-z0-9_.*-]*)"
    return SStr(k)


def spans(ctx, *names):
    """code_text by its contract; what loops make is remembered by the languages above"""
    ctx.texts = {"block": BLOCK, "safe": SAFE}

    def text(v):
        if type(v) is core.SInt:
            r = ctx.fresh("code_text", S)
            ctx.memo["upper", r.decl().name()] = NUMBER
            return SStr(r)
        r = ctx.fresh("code_text", S)
        ctx.memo["upper", r.decl().name()] = f"(?:{CONTENT})"
        return SStr(r)

    ctx.stubs["httplint.util.code_text"] = text


def sf_params(mod):
    def body(ctx):
        import httplint.field.utils as FU

        m = importlib.import_module(f"httplint.field.parsers.{mod}")
        spans(ctx)
        ns = [c for n, c in vars(m).items() if isinstance(c, type) and issubclass(c, N.Note)]
        out = expect_ok(ctx, "check_sf_params", FU.check_sf_params, Params("params"), m.KNOWN_PARAMS, lambda *a, **k: None,
                        ns[0], ns[0])
        prove_within(out, BLOCK, "the list of parameters shows message data in code only")

    return body


def render_all(ctx, recs):
    """the notes given, in every language"""
    for loc in LOCALES:
        ctx.stubs.update(render_stubs(loc))
        for r in recs:
            n = r.note.__new__(r.note)
            n.subject, n.subnotes, n.vars = r.subject, [], dict(FIELD_VARS, **r.vars)
            html = expect_ok(ctx, f"{r.name}.detail", n._get_detail)
            judge(html, r.name)


FIELD_VARS = {"field_name": "Field", "response": "response", "message": "response", "request": "request"}


def sf_status(mod):
    def body(ctx):
        m = importlib.import_module(f"httplint.field.parsers.{mod}")
        cls = getattr(m, mod)
        spans(ctx)

        def check(params, known, add_note, *a, **k):
            ctx.prove(known is m.KNOWN_PARAMS, "the parameters are the field's own")
            r = ctx.fresh("param_list", S)
            ctx.memo["upper", r.decl().name()] = BLOCK
            return SStr(r)

        ctx.stubs["httplint.field.utils.check_sf_params"] = check
        ctx.stubs.update(render_stubs("en"))
        h = cls.__new__(cls)
        h.__dict__.update(value=seq("members", lambda i: (anything(ctx, "target"), Params("params"))),
                          message=NS(message_type="response", notes=[]))
        expect_ok(ctx, "evaluate", h.evaluate, add_note_fn())
        recs = notes()
        ctx.cover("note" if recs else "none")
        render_all(ctx, recs)

    return body


def code_items(ctx, items):
    """the precondition of markdown_list: each item fits a code span"""
    sl = sym_iter(items)
    if sl is None:
        for v in list(items):
            prove_within(v, CONTENT, "an item of the list fits a code span")
        return
    v, conds = sl.any_elem(z3.Int("any_idx"))
    lits = {core.zstr_value(x) for c in conds for x in literals(c)}
    one_of = z3.Or(*[z3val(v) == z3val(x) for x in sorted(lits)]) if lits else z3.BoolVal(False)
    if not ctx.feasible(z3.And(*conds, z3.Not(one_of))):
        for x in sorted(lits):
            prove_within(x, CONTENT, "an item of the list fits a code span")
    else:
        prove_within(v, CONTENT, "an item of the list fits a code span")


def literals(e):
    if z3.is_string_value(e):
        return [e]
    return [x for y in e.children() for x in literals(y)]


def list_stub(ctx):
    def mlist(items, markup=""):
        ctx.prove(markup == "`", "the items are code")
        code_items(ctx, items)
        r = ctx.fresh("markdown_list", S)
        ctx.memo["upper", r.decl().name()] = SAFE
        return SSafe(r)

    ctx.stubs["httplint.util.markdown_list"] = mlist


def markdown_list(ctx):
    """for items that fit a code span"""
    import httplint.util as U

    ctx.texts = {"safe": SAFE}
    ctx.stubs["httplint.note.MarkdownSafe"] = markdown_safe

    def item(idx):
        f = z3.Function("item", z3.IntSort(), S)
        ctx.memo["upper", "item"] = f"(?:{CONTENT})"
        return SStr(f(idx))

    l = PList()
    l.sym = seq("items", item)
    out = expect_ok(ctx, "markdown_list", U.markdown_list, l, markup="`")
    prove_within(out, SAFE, "a list of code spans")


def csp_list(ctx):
    import httplint.field.parsers.content_security_policy as M

    spans(ctx)
    ctx.stubs["httplint.note.MarkdownSafe"] = markdown_safe
    cls = M.content_security_policy
    h = cls.__new__(cls)
    l = PList()
    l.sym = SList("directives", maker=Maker("directives", {"str"}))
    out = expect_ok(ctx, "_make_list", h._make_list, l)
    ctx.prove(getattr(out, "pytype", type(out)) is N.MarkdownSafe, "the list is Markdown")
    prove_within(out, SAFE, "a list of code spans")


def cc_conflicts(ctx):
    from props import p25

    ctx.loop_specs = {"*": lambda lid, seq, loc: LoopSpec(end=lambda v: None)}
    list_stub(ctx)
    dl, mt, h = p25.setup(ctx)
    expect_ok(ctx, "evaluate", h.evaluate, add_note_fn())
    for r in notes():
        if r.name == "CC_CONFLICTING":
            ctx.cover("note")


def status304(ctx):
    from httplint.status import StatusChecker

    list_stub(ctx)
    have = {n: new_bool(n) for n in ("date", "content-type", "content-encoding", "content-language")}

    class Parsed:
        def __contains__(self, n):
            if is_sym(n) or n not in have:
                raise Unsupported("another field")
            return bool(have[n])

    h = StatusChecker.__new__(StatusChecker)
    gn = GhostNotes("message")
    h.__dict__.update(response=NS(headers=NS(parsed=Parsed()), notes=gn, status_code=304, status_code_str="304"), request=None, add_note=gn.add)
    expect_ok(ctx, "status304", h.status304)
    ctx.cover("note" if [r for r in notes() if "headers" in r.vars] else "none")


def hardened(ctx):
    import httplint.field.parsers.set_cookie as M

    spans(ctx)
    ctx.stubs.update(render_stubs("en"))
    I = z3.IntSort()
    ctx.stubs["httplint.field.parsers.set_cookie._is_hardened"] = lambda attrs: core.mkbool(z3.Function("hardened", I, z3.BoolSort())(attrs.e))
    f, g = z3.Function("cookie_name", I, S), z3.Function("attrs", I, I)
    h = M.set_cookie.__new__(M.set_cookie)
    l = PList()
    l.sym = seq("cookies", lambda i: (SStr(f(i)), "v", core.SInt(g(i))))
    h.__dict__.update(value=l, message=NS(message_type="response", notes=[]), _deferred_notes=PList())
    expect_ok(ctx, "evaluate", h.evaluate, add_note_fn())
    recs = notes(["SET_COOKIE_HARDENED"], partial=True)
    ctx.cover("note" if recs else "none")
    render_all(ctx, recs)


def link_hints(ctx):
    import httplint.field.parsers.link as M

    spans(ctx)
    ctx.texts["any"] = r"[\s\S]*"
    ctx.stubs.update(render_stubs("en"))
    I = z3.IntSort()
    f, g = z3.Function("target", I, S), z3.Function("rel", I, S)
    norel = z3.Function("no_rel", I, z3.BoolSort())
    h = M.link.__new__(M.link)
    l = PList()
    l.sym = seq("links", lambda i: (SStr(f(i)), NS(get=lambda n, d=None: core.SOpt(norel(i), SStr(g(i))))))
    h.__dict__.update(value=l, message=NS(message_type="response", notes=[], base_uri="http://a.example/"))

    def split(*a, **k):
        if ctx.decide(ctx.fresh("unparseable", z3.BoolSort())):
            raise ValueError("symbolic")
        return NS(scheme=new_str("scheme"))

    ctx.stubs.update({"urllib.parse.urljoin": lambda a, b: b, "urllib.parse.urlsplit": split})
    expect_ok(ctx, "evaluate", h.evaluate, add_note_fn())
    recs = notes(["LINK_RESOURCE_HINTS"], partial=True)
    ctx.cover("note" if recs else "none")
    render_all(ctx, recs)


def sf_context(ctx):
    """what a Structured Field that can't be parsed is reported with"""
    import http_sf
    import httplint.field.structured_field as M

    spans(ctx)
    ctx.stubs.update(render_stubs("en"))

    def parse(data, tltype=None, on_duplicate_key=None):
        k = ctx.choose(4, "outcome")
        if k == 0:
            return NS()
        e = [http_sf.StructuredFieldError, ValueError, RuntimeError][k - 1]("problem")
        e.args = (new_str("problem"),)
        if k == 1:
            e.position = core.unopt(core.SOpt(z3.Const("no_position", z3.BoolSort()), new_int("position", 0)))
        raise e

    ctx.stubs[f"{http_sf.parse.__module__}.parse"] = parse
    h = M.StructuredField.__new__(M.StructuredField)
    l = PList()
    l.sym = SList("lines", maker=Maker("lines", {"str"}))
    h.__dict__.update(value=l, message=NS(message_type="response", notes=[]), _sf_parsed=False, sf_type="item", category=None)
    ctx.stubs["httplint.field.HttpField.finish"] = lambda self, add_note: None
    expect_ok(ctx, "finish", h.finish, add_note_fn())
    recs = notes()
    ctx.cover("note" if recs else "none")
    render_all(ctx, recs)


# --- where pre-composed Markdown is shown ----------------------------------------------------------
def kwargs_from(is_source):
    """(note class, variable) pairs that get a value for which is_source holds, by the calls in the modules"""
    out, unknown = set(), []
    for m in modules():
        for fn in [x for x in ast.walk(ast.parse(inspect.getsource(m))) if isinstance(x, ast.FunctionDef)]:
            owned = {}
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    owned.setdefault(x.targets[0].id, []).append(x.value)

            def source(v, depth=0):
                if is_source(v):
                    return True
                if isinstance(v, ast.Name) and depth < 3:
                    return any(source(w, depth + 1) for w in owned.get(v.id, ()))
                if isinstance(v, ast.IfExp):
                    return source(v.body, depth) or source(v.orelse, depth)
                return False

            for x in ast.walk(fn):
                named = []
                if isinstance(x, ast.Call) and x.args and x.keywords:
                    named = [(k.arg, k.value) for k in x.keywords]
                    cls = x.args
                elif isinstance(x, ast.Tuple) and any(isinstance(y, ast.Dict) for y in x.elts):
                    named = [(k.value, v) for y in x.elts if isinstance(y, ast.Dict) for k, v in zip(y.keys, y.values)
                             if isinstance(k, ast.Constant)]
                    cls = x.elts
                for name, v in named:
                    if not source(v):
                        continue
                    got = [getattr(m, c.id) for c in cls if isinstance(c, ast.Name) and isinstance(getattr(m, c.id, None), type)
                           and issubclass(getattr(m, c.id), N.Note)]
                    if got:
                        out |= {(g, name) for g in got}
                    else:
                        unknown.append(f"{m.__name__}.{fn.name} {name}")
    return out, unknown


def called(*names):
    return lambda v: isinstance(v, ast.Call) and (v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", None)) in names


def shown(ctx):
    """lists of code spans, and library constants, in every note that gets one"""
    lists, unknown = kwargs_from(called("_make_list", "markdown_list"))
    const, more = kwargs_from(lambda v: isinstance(v, ast.Attribute) and v.attr == "report_only_text")
    if unknown + more:
        raise Unsupported(f"notes with composed Markdown that aren't named: {unknown + more}")
    consts = set()
    for c in p23.field_classes():
        consts.add(getattr(c, "report_only_text", ""))
    for loc in LOCALES:
        ctx.stubs.update(render_stubs(loc))
        for cls, var in sorted(lists | const, key=lambda x: (x[0].__name__, x[1])):
            with I18N.set_locale(loc):
                vs = variables(I18N.translate(cls._text))
            for text in sorted(consts) if (cls, "report_only_text") in const else [""]:
                n = cls.__new__(cls)
                n.subject, n.subnotes = "subject", []
                n.vars = {v: SStr(z3.Const(v, S)) for v in vs}
                for c2, v2 in lists | const:
                    if c2 is cls and v2 in vs:
                        n.vars[v2] = text
                        if (cls, v2) in lists:
                            r = ctx.fresh(v2, S)
                            ctx.memo["upper", r.decl().name()] = SAFE
                            n.vars[v2] = SSafe(r)
                html = expect_ok(ctx, f"{cls.__name__}.detail", n._get_detail)
                judge(html, f"{cls.__name__} with {var}")
            ctx.cover("list" if (cls, var) in lists else "constant")


COMPOSE = {  # under contract above
    "httplint.field.structured_field.StructuredField.finish", "httplint.field.parsers.link.link.evaluate",
    "httplint.field.parsers.content_security_policy.content_security_policy._make_list",
    "httplint.field.parsers.set_cookie.set_cookie.evaluate", "httplint.field.parsers.cache_status.cache_status.evaluate",
    "httplint.field.parsers.proxy_status.proxy_status.evaluate", "httplint.util.markdown_list"}


def composed(ctx):
    """pre-composed Markdown is made by the functions under contract only; links go to the library's references"""
    for m in modules():
        def visit(node, path):
            for x in ast.iter_child_nodes(node):
                p = path
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    p = f"{path}.{x.name}"
                if called("MarkdownSafe")(x) and any(not isinstance(a, ast.Constant) for a in x.args) and path not in COMPOSE:
                    raise Unsupported(f"{path} composes Markdown and is not under contract")
                if called("markdown_list")(x) and path not in (
                        "httplint.field.parsers.cache_control.cache_control.evaluate", "httplint.status.StatusChecker.status304"):
                    raise Unsupported(f"{path} lists values and is not under contract")
                visit(x, p)

        visit(ast.parse(inspect.getsource(m)), m.__name__)

    def library(v):
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
            return v.attr == "reference"
        if called("getattr")(v):
            return isinstance(v.args[1], ast.Constant) and v.args[1].value in LINKS and all(library(a) for a in v.args[2:])
        return isinstance(v, (ast.Constant, ast.Name))

    got, unknown = kwargs_from(library)
    for m in modules():
        for x in ast.walk(ast.parse(inspect.getsource(m))):
            for k in getattr(x, "keywords", ()):
                if k.arg in LINKS and not library(k.value):
                    raise Unsupported(f"{m.__name__}:{x.lineno} link to {ast.unparse(k.value)}")
    for cls in p23.field_classes():
        for a in ("reference", "deprecation_ref"):
            ref = getattr(cls, a, None)
            ctx.prove(ref is None or (isinstance(ref, str) and re.fullmatch(r"[A-Za-z0-9:/#?.=&_~%-]*", ref) is not None),
                      "a field's reference is a plain URL", info=lambda: f"{cls.__name__}.{a}")


def contracts():
    out = [Contract(f"Note.detail ({loc})", detail(loc), functions=["httplint.note.Note._get_detail"],
                    covers=["with message data", "without"]) for loc in LOCALES]
    out += [Contract("code_text", code_text, functions=["httplint.util.code_text"])]
    for mod in ("cache_status", "proxy_status"):
        out += [Contract(f"check_sf_params ({mod})", sf_params(mod), functions=["httplint.field.utils.check_sf_params"]),
                Contract(f"{mod}.evaluate", sf_status(mod), functions=[f"httplint.field.parsers.{mod}.{mod}.evaluate"],
                         covers=["note", "none"])]
    F = "httplint.field."
    out += [
        Contract("markdown_list", markdown_list, functions=["httplint.util.markdown_list"]),
        Contract("content_security_policy._make_list", csp_list, functions=[F + "parsers.content_security_policy.content_security_policy._make_list"]),
        Contract("cache_control.evaluate", cc_conflicts, functions=[F + "parsers.cache_control.cache_control.evaluate"], covers=["note"]),
        Contract("status304", status304, functions=["httplint.status.StatusChecker.status304"], covers=["note", "none"]),
        Contract("set_cookie.evaluate", hardened, functions=[F + "parsers.set_cookie.set_cookie.evaluate"], covers=["note", "none"]),
        Contract("link.evaluate", link_hints, functions=[F + "parsers.link.link.evaluate"], covers=["note", "none"]),
        Contract("StructuredField.finish", sf_context, functions=[F + "structured_field.StructuredField.finish"], covers=["note", "none"]),
        Contract("composed lists where they are shown", shown, functions=["httplint.note.Note._get_detail"], covers=["list", "constant"]),
        Contract("composed Markdown and links", composed, functions=[]),
    ]
    return out
