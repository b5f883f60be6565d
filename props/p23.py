"""P23: field grammars (httplint/syntax, and the syntax of every field class)."""
import functools
import importlib
import inspect
import pkgutil
import re
import z3
from pyvc import relang
from pyvc.core import new_bool, new_str, ctx as cur, Unsupported
from pyvc.containers import PList
from pyvc.ghost import NS, GhostNotes, add_note_fn, notes
from pyvc.models import in_lang
from pyvc.runtime import register
from pyvc.verify import Contract, raises
import httplint.field.parsers as parsers
from httplint.field import HttpField
from httplint.field.broken_field import BrokenField
from httplint.field.list_field import HttpListField
from httplint.field.singleton_field import SingletonField
from httplint.field.utils import RE_FLAGS
from spec import grammar as GR

SYNTAX_NOTES = {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED"}


@functools.cache
def field_classes():
    out = []
    for m in pkgutil.iter_modules(parsers.__path__):
        mod = importlib.import_module("httplint.field.parsers." + m.name)
        for c in vars(mod).values():
            if inspect.isclass(c) and issubclass(c, HttpField) and c.__module__ == mod.__name__ and \
                    getattr(c, "canonical_name", None):
                out.append(c)
    return sorted(set(out), key=lambda c: c.canonical_name)


def pattern_of(c):
    """the pattern that a value (of a list: an element) has to match"""
    s = c.syntax
    return str(getattr(s, "element", s) if issubclass(c, HttpListField) else s)


def rules(modules):
    def run(ctx):
        n = 0
        for mod in modules:
            m = importlib.import_module("httplint.syntax." + mod)
            for rule in GR.COMMON[mod]:
                value = getattr(m, rule.replace("-", "_"), None)
                if value is None:
                    raise Unsupported(f"httplint.syntax.{mod} has no {rule}")
                text = rf"^(?:{value})\Z"
                try:
                    d = relang.lang(text, RE_FLAGS)
                except relang.Refused as e:
                    raise Unsupported(f"{mod}.{rule}: {e}")
                name = {"rfc5322": {"quoted-pair": "quoted-pair-5322"}}.get(mod, {}).get(rule, rule)
                x = relang.compare(d, GR.lang(name), True)
                ctx.witness = lambda m: {"module": mod, "rule": rule, "spec": name, "text": x[0]}
                ctx.functions.add(f"httplint.syntax.{mod}.{rule.replace('-', '_')}")
                ctx.prove(x is None, f"{mod} {rule} is the language of its ABNF",
                          info=lambda: f"{x[0]!r} is {'accepted' if x[1] else 'rejected'}")
                n += 1
        ctx.cover("rules" if n else "none")
    return run


def fields(kind):
    """for a class of fields: the syntax note is given exactly for the values outside the field's grammar"""
    def run(ctx):
        cs = [c for c in field_classes() if issubclass(c, kind) and c.syntax]
        for c in cs:
            name = c.canonical_name
            lst = issubclass(c, HttpListField)
            t = GR.of_field(name, lst)
            if t is None:
                raise Unsupported(f"no grammar for {name}")
            try:
                d = relang.lang(rf"^\s*(?:{pattern_of(c)})\s*$", RE_FLAGS)
            except relang.Refused as e:
                raise Unsupported(f"{name}: {e}")
            x = relang.compare(d, GR.lang(t, True), True)
            ctx.witness = lambda m: {"field": name, "text": x[0]}
            ctx.functions.add(f"{c.__module__}.{c.__name__}.syntax")
            ctx.prove(x is None, f"{name}'s syntax is the language of its ABNF",
                      info=lambda: f"{x[0]!r} is {'accepted' if x[1] else 'rejected'}")
        ctx.cover("fields" if cs else "none")
    return run


def judge(kind):
    """how an arbitrary field of a kind uses its grammar"""
    def run(ctx):
        ctx.wire = True
        cs = [c for c in field_classes() if issubclass(c, kind) and c.syntax]
        if not cs:
            return
        # any one of the fields
        for c in cs[:-1]:
            if bool(new_bool("it is " + c.canonical_name)):
                break
        else:
            c = cs[-1]
        if c:
            v = new_str("value_" + c.__name__)
            ctx.assume(z3.Length(v.e) > 0)
            ctx.assume(in_lang(v, relang.wire(relang.lang(r"(?s)^.*\Z"))))
            h = c.__new__(c)
            h.__dict__.update(value=register(PList(), "values"), message=NS(message_type="response", notes=GhostNotes("m")))
            h.__dict__["parse"] = lambda x, add_note: x
            h.__dict__["evaluate"] = lambda add_note: None
            want = cur().decide(in_lang(v, relang.wire(relang.lang(rf"^\s*(?:{pattern_of(c)})\s*$", RE_FLAGS))))
            if issubclass(c, HttpListField):
                ctx.stubs["httplint.field.utils.split_list_field"] = lambda s: [v]
                ctx.stubs["httplint.field.list_field.split_list_field"] = lambda s: [v]
                st, got = raises(ctx, HttpListField.handle_input, h, v, add_note_fn(), 0)
            elif issubclass(c, SingletonField):
                h.__dict__["raw_values"] = [v]
                st, got = raises(ctx, SingletonField.finish, h, add_note_fn())
            else:
                h.__dict__["raw_values"] = [(v, 0)]
                st, got = raises(ctx, BrokenField.finish, h, add_note_fn())
            ctx.prove(st == "ok", "judging the value does not raise", info=lambda: f"{c.canonical_name}: {got}")
            n = len(notes(SYNTAX_NOTES))
            if want:
                ctx.prove(n == 0, "no syntax note for a value that matches", info=lambda: c.canonical_name)
                ctx.cover("match")
            elif c.report_syntax:
                ctx.prove(n == 1, "one syntax note for a value that does not match", info=lambda: c.canonical_name)
                ctx.cover("mismatch")
            else:
                ctx.prove(n == 0, "no syntax note where the field reports its errors itself", info=lambda: c.canonical_name)
    return run


def contracts():
    mods = [[m] for m in GR.COMMON]
    out = [Contract("rules_" + m[0], rules(m), functions=["httplint.syntax." + m[0]], covers=["rules"]) for m in mods]
    for kind, base in (("list", HttpListField), ("singleton", SingletonField)):
        out.append(Contract("fields_" + kind, fields(base), functions=["httplint.field.parsers.*.syntax"], covers=["fields"]))
        out.append(Contract("judge_" + kind, judge(base), functions=[f"httplint.field.{kind}_field"], covers=["match", "mismatch"]))
    return out
