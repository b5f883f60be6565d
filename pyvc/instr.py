"""Mechanical instrumentation of httplint's source, done afresh at every import.

What it does (and all it does): inside function bodies, calls, subscripts, container displays,
comprehensions, loops, f-strings, `in`, `is True/False`, `+`, `%`, `*`, and attribute stores are
routed through the runtime (runtime.py), which performs the native operation unless a symbolic
value is involved.  Decorators, class bodies, module level code, annotations and default values
are left as they are.  Nothing is dropped.
"""
from __future__ import annotations

import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

PV = "pv__"


def _name(n, load=True):
    return ast.Name(n, ast.Load() if load else ast.Store())


def _attr(a):
    return ast.Attribute(_name(PV), a, ast.Load())


def _call(fn, *args):
    return ast.Call(_attr(fn), list(args), [])


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        # the name is unbound when the handler ends
        for s in n.body:
            self.visit(s)


def assigned(nodes):
    v = _Assigned()
    for n in nodes:
        v.visit(n)
    return v.names


class Fn(ast.NodeTransformer):
    """Transforms one function body."""

    def __init__(self, qual):
        self.qual = qual
        self.loops = 0
        self.sites = 0
        self.uid = 0
        self.globals = set()

    def site(self):
        self.sites += 1
        return ast.Constant(f"{self.qual}@{self.sites}")

    # --- scopes
    def visit_FunctionDef(self, node):
        sub = Fn(f"{self.qual}.<locals>.{node.name}")
        node.body = sub.block(node.body)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        for b in node.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                Top.function(b, f"{self.qual}.<locals>.{node.name}")
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        val = self.visit(node.value)
        if isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([node.target], val), node)
        return self._store(node.target, val, node)

    def visit_Assign(self, node):
        val = self.visit(node.value)
        if len(node.targets) == 1:
            return self._store(node.targets[0], val, node)
        t = f"pv__t{self.uid}"
        self.uid += 1
        out = [ast.copy_location(ast.Assign([_name(t, False)], val), node)]
        for tg in node.targets:
            r = self._store(tg, _name(t), node)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def _store(self, target, val, node):
        if isinstance(target, ast.Name):
            return ast.copy_location(ast.Assign([target], val), node)
        if isinstance(target, ast.Attribute):
            return ast.copy_location(
                ast.Expr(_call("setattr", self.visit(target.value), ast.Constant(target.attr), val)), node)
        if isinstance(target, ast.Subscript):
            return ast.copy_location(
                ast.Expr(_call("setitem", self.visit(target.value), self._slice(target.slice), val)), node)
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            if any(isinstance(e, ast.Starred) for e in target.elts):
                return ast.copy_location(ast.Assign([target], val), node)
            val = _call("unpack", val, ast.Constant(n))
            if all(isinstance(e, ast.Name) for e in target.elts):
                return ast.copy_location(ast.Assign([target], val), node)
            names = []
            for _ in target.elts:
                names.append(f"pv__t{self.uid}")
                self.uid += 1
            out = [ast.copy_location(
                ast.Assign([ast.Tuple([_name(x, False) for x in names], ast.Store())], val), node)]
            for e, x in zip(target.elts, names):
                r = self._store(e, _name(x), node)
                out.extend(r if isinstance(r, list) else [r])
            return out
        return ast.copy_location(ast.Assign([target], val), node)

    def visit_AugAssign(self, node):
        t = node.target
        op = type(node.op).__name__
        val = self.visit(node.value)
        if isinstance(t, ast.Name):
            load = _name(t.id)
            return ast.copy_location(
                ast.Assign([t], _call("aug", ast.Constant(op), load, val)), node)
        if isinstance(t, ast.Attribute):
            obj = self.visit(t.value)
            tmp = f"pv__t{self.uid}"
            self.uid += 1
            return [
                ast.copy_location(ast.Assign([_name(tmp, False)], obj), node),
                ast.copy_location(ast.Expr(_call(
                    "setattr", _name(tmp), ast.Constant(t.attr),
                    _call("aug", ast.Constant(op), ast.Attribute(_name(tmp), t.attr, ast.Load()), val))), node),
            ]
        if isinstance(t, ast.Subscript):
            tmp, tk = f"pv__t{self.uid}", f"pv__t{self.uid + 1}"
            self.uid += 2
            return [
                ast.copy_location(ast.Assign([_name(tmp, False)], self.visit(t.value)), node),
                ast.copy_location(ast.Assign([_name(tk, False)], self._slice(t.slice)), node),
                ast.copy_location(ast.Expr(_call(
                    "setitem", _name(tmp), _name(tk),
                    _call("aug", ast.Constant(op), _call("getitem", _name(tmp), _name(tk)), val))), node),
            ]
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            n = lambda x: self.visit(x) if x is not None else ast.Constant(None)
            return ast.Call(_attr("slice"), [n(s.lower), n(s.upper), n(s.step)], [])
        return self.visit(s)

    # --- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals"):
            self.generic_visit(node)
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(ast.Call(_attr("call"), [f] + args, kws), node)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", self.visit(node.value), self._slice(node.slice)), node)
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, r = node.ops[0], node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(_call("in_", node.left, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(_call("notin", node.left, r), node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                c = _call("is_", node.left, r)
                if isinstance(op, ast.IsNot):
                    c = ast.UnaryOp(ast.Not(), c)
                return ast.copy_location(c, node)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                return ast.copy_location(
                    _call("eq" if isinstance(op, ast.Eq) else "ne", node.left, r), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Mod, ast.Mult)):
            return ast.copy_location(
                _call("binop", ast.Constant(type(node.op).__name__), node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(_call("fstr", *parts), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("mklist", self.site(), node), node)
        return node

    def visit_Set(self, node):
        return ast.copy_location(
            _call("mkset", self.site(), ast.Tuple([self.visit(e) for e in node.elts], ast.Load())), node)

    def visit_Dict(self, node):
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([_attr("STAR"), self.visit(v)], ast.Load()))
            else:
                items.append(ast.Tuple([self.visit(k), self.visit(v)], ast.Load()))
        return ast.copy_location(_call("mkdict", self.site(), ast.Tuple(items, ast.Load())), node)

    def _comp(self, node, kind):
        def simple(t):
            return isinstance(t, ast.Name) or (
                isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts))

        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            self.generic_visit(node)
            return node
        if len(node.generators) != 1 or not simple(node.generators[0].target):
            self.generic_visit(node)
            return node
        g = node.generators[0]
        it = self.visit(g.iter)

        def lam(body):
            t = g.target
            if isinstance(t, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(t.id)], None, [], [], None, []), body)
            inner = ast.Lambda(
                ast.arguments([], [ast.arg(e.id) for e in t.elts], None, [], [], None, []), body)
            if len({e.id for e in t.elts}) != len(t.elts):
                # repeated throw-away names
                seen, args = set(), []
                for i, e in reversed(list(enumerate(t.elts))):
                    args.append(ast.arg(e.id if e.id not in seen else f"pv___dup{i}"))
                    seen.add(e.id)
                inner.args.args = args[::-1]
            return ast.Lambda(
                ast.arguments([], [ast.arg("pv__x")], None, [], [], None, []),
                ast.Call(inner, [ast.Starred(_call("unpack", _name("pv__x"), ast.Constant(len(t.elts))),
                                             ast.Load())], []))

        if kind == "dict":
            elt = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
        else:
            elt = self.visit(node.elt)
        conds = [self.visit(c) for c in g.ifs]
        cond = ast.Constant(None)
        if conds:
            cond = lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
        return ast.copy_location(
            _call("comp", ast.Constant(kind), self.site(), it, lam(elt), cond), node)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    # --- loops
    def _loop_prologue(self, g, ctor, names, node):
        out = [ast.Assign([_name(g, False)], ctor)]
        body = [ast.Assign([_name(n, False)], ast.Call(
            ast.Attribute(_name(g), "get", ast.Load()), [ast.Constant(n)], [])) for n in names]
        if body:
            out.append(ast.If(ast.Attribute(_name(g), "sym", ast.Load()), body, []))
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_Global(self, node):
        self.globals |= set(node.names)
        return node

    def visit_For(self, node):
        self.loops += 1
        lid = f"{self.qual}#{self.loops}"
        g = f"pv__g{self.loops}"
        names = [n for n in assigned(node.body + [node.target]) if not n.startswith("pv__")]
        it = self.visit(node.iter)
        args = [ast.Constant(lid), it, ast.Tuple([ast.Constant(n) for n in names], ast.Load()), ast.Call(_name("locals"), [], [])]
        found = search(node)
        if found:
            args.append(self.visit(found))
        ctor = _call("forloop", *args)
        out = self._loop_prologue(g, ctor, names, node)
        body = self.block(node.body)
        target = node.target
        if isinstance(target, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in target.elts):
            t = f"pv__i{self.loops}"
            st = self._store(target, _name(t), node)
            body = (st if isinstance(st, list) else [st]) + body
            target = _name(t, False)
        new = ast.For(target, _name(g), body, self.block(node.orelse), None)
        out.append(ast.copy_location(new, node))
        return out

    def visit_While(self, node):
        self.loops += 1
        lid = f"{self.qual}#{self.loops}"
        g = f"pv__g{self.loops}"
        names = [n for n in assigned(node.body) if not n.startswith("pv__")]
        ctor = _call("whileloop", ast.Constant(lid),
                     ast.Tuple([ast.Constant(n) for n in names], ast.Load()), ast.Call(_name("locals"), [], []))
        out = self._loop_prologue(g, ctor, names, node)
        test = ast.BoolOp(ast.And(), [
            ast.Call(ast.Attribute(_name(g), "tick", ast.Load()), [], []), self.visit(node.test)])
        new = ast.While(test, self.block(node.body), self.block(node.orelse))
        out.append(ast.copy_location(new, node))
        return out


PURE = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "get", "isdigit", "isascii", "isalpha", "isalnum", "isupper", "islower",
        "isspace", "casefold", "find", "count"}


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Attribute) and x.func.attr in PURE or isinstance(x.func, ast.Name) and x.func.id in ("len", "isinstance")):
            return False
    return True


def search(node):
    """what a loop looks for, as a function of the element: a loop that does nothing for an element unless a condition holds, and
    then ends, or only sets variables to constants"""
    def simple(t):
        return isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts)

    body, lets = list(node.body), []
    if not simple(node.target):
        return None
    while body and isinstance(body[0], ast.Assign) and len(body[0].targets) == 1 and isinstance(body[0].targets[0], ast.Name) and pure(body[0].value):
        lets.append(body.pop(0))
    if not body or not isinstance(body[0], ast.If) or body[0].orelse or not pure(body[0].test):
        return None
    test, then = body[0].test, body[0].body
    if len(body) > 1:
        if len(then) != 1 or not isinstance(then[0], ast.Continue):
            return None
        test, then = ast.UnaryOp(ast.Not(), test), body[1:]
    ends = isinstance(then[-1], (ast.Return, ast.Break, ast.Raise)) and not any(isinstance(x, ast.Continue) for b in then for x in ast.walk(b))
    sets = all(isinstance(b, ast.Assign) and isinstance(b.value, ast.Constant) and all(isinstance(t, ast.Name) for t in b.targets) for b in then)
    if not ends and not sets:
        return None
    bound = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)} | {b.targets[0].id for b in lets}
    if sets and any(t.id in bound or t.id in {x.id for x in ast.walk(test) if isinstance(x, ast.Name)} for b in then for t in b.targets if isinstance(t, ast.Name)) and not ends:
        return None
    import copy

    e = copy.deepcopy(test)
    for b in reversed(lets):
        e = ast.Call(ast.Lambda(ast.arguments([], [ast.arg(b.targets[0].id)], None, [], [], None, []), e), [copy.deepcopy(b.value)], [])
    t = node.target
    if isinstance(t, ast.Name):
        fn = ast.Lambda(ast.arguments([], [ast.arg(t.id)], None, [], [], None, []), e)
    else:
        if len({x.id for x in t.elts}) != len(t.elts):
            return None
        inner = ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in t.elts], None, [], [], None, []), e)
        fn = ast.Lambda(ast.arguments([], [ast.arg("pv__x")], None, [], [], None, []),
                        ast.Call(inner, [ast.Starred(_call("unpack", _name("pv__x"), ast.Constant(len(t.elts))), ast.Load())], []))
    return ast.fix_missing_locations(ast.copy_location(fn, node))


class Top:
    @staticmethod
    def function(node, prefix):
        qual = f"{prefix}.{node.name}" if prefix else node.name
        f = Fn(qual)
        doc = node.body[:1] if (node.body and isinstance(node.body[0], ast.Expr)
                                and isinstance(node.body[0].value, ast.Constant)) else []
        node.body = doc + f.block(node.body[len(doc):])

    @staticmethod
    def module(tree, modname):
        def walk(body, prefix):
            for b in body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    Top.function(b, prefix)
                elif isinstance(b, ast.ClassDef):
                    walk(b.body, f"{prefix}.{b.name}" if prefix else b.name)
                elif isinstance(b, (ast.If, ast.Try)):
                    walk(b.body, prefix)
                    walk(b.orelse, prefix)

        walk(tree.body, modname)
        return ast.fix_missing_locations(tree)


def instrument(source, modname, path):
    tree = ast.parse(source, path)
    return Top.module(tree, modname)


REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = {}


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, pkg):
        self.fullname, self.path, self.pkg = fullname, path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import runtime

        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        SOURCES[self.fullname] = hashlib.sha256(src.encode()).hexdigest()
        tree = instrument(src, self.fullname, self.path)
        module.__dict__[PV] = runtime
        exec(compile(tree, self.path, "exec"), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in ("httplint", "spec") or fullname == "spec.grammar":
            return None
        # the specification functions get the same treatment, so that they run on symbolic values
        base = os.path.join(REPO if top == "httplint" else VERIF, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p, True), submodule_search_locations=[base])
            return spec
        if os.path.exists(base + ".py"):
            p = base + ".py"
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(fullname, p, False))
        if os.path.isdir(base):
            return None
        return None


def install():
    site = "/opt/venv/lib/python3.12/site-packages"
    if site not in sys.path:
        sys.path.append(site)
    if REPO not in sys.path:
        sys.path.append(REPO)
    sys.meta_path.insert(0, Finder())
