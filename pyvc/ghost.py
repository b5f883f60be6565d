"""Ghost state shared by the contracts: notes traces, lazily known parsed fields, concretisation."""
from __future__ import annotations

import z3

from . import core
from .core import (
    S, SBool, SBytes, SInt, SReal, SStr, Sym, Unsupported, ctx, is_sym, mkbool, mkstr, new_bool,
    new_int, new_real, new_str, z3val, zstr_value,
)
from .containers import LazyDict, Maker, PDict, PList, PSet, SList, fresh_of


class NS:
    """A plain object."""

    def __init__(self, **k):
        self.__dict__.update(k)


class Rec:
    def __init__(self, owner, subject, note, vrs, parent=None):
        self.owner, self.subject, self.note, self.vars, self.parent = owner, subject, note, vrs, parent
        self.children = []

    @property
    def name(self):
        return self.note.__name__

    def add_child(self, note, **vrs):
        accept(vrs)
        r = Rec(self.owner, self.subject, note, dict(self.vars, **vrs), self)
        self.children.append(r)
        ctx().trace.append(r)
        return r

    def __repr__(self):
        return f"{self.name}@{self.subject}"


def accept(vrs):
    """Note.__init__ has parameters of these names already"""
    for k in ("subject", "self"):
        if k in vrs:
            raise TypeError(f"Note.__init__() got multiple values for argument '{k}'")


class GhostNotes:
    """Stands for a Notes list: records every note added."""

    def __init__(self, owner="message"):
        self.owner = owner

    def add(self, subject, note, category=None, **vrs):
        accept(vrs)
        r = Rec(self.owner, subject, note, vrs)
        ctx().trace.append(r)
        return r


def add_note_fn(owner="message", subject="subject"):
    def add_note(note, category=None, **vrs):
        accept(vrs)
        r = Rec(owner, subject, note, vrs)
        ctx().trace.append(r)
        return r

    return add_note


def notes(names=None, owner=None, partial=False):
    if ctx().trace_lost and not partial:
        raise Unsupported(f"notes added by loop {ctx().trace_lost}, which has no contract")
    return [r for r in ctx().trace if isinstance(r, Rec) and (names is None or r.name in names)
            and (owner is None or r.owner == owner)]


def conc(model, v):
    """Python value of a proxy (or structure of proxies) in a model."""
    if isinstance(v, (str, bytes, int, float, bool)) and not is_sym(v) or v is None:
        return v
    if type(v) is core.SOpt:
        if z3.is_true(model.eval(v.none, model_completion=True)):
            return None
        return conc(model, v.val)
    if is_sym(v):
        e = model.eval(v.e, model_completion=True)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            n, d = e.numerator_as_long(), e.denominator_as_long()
            return n / d
        if z3.is_string_value(e):
            s = zstr_value(e)
            return s.encode("latin-1", "replace") if type(v) is SBytes else s
        raise Unsupported("concretise")
    if isinstance(v, tuple):
        return tuple(conc(model, x) for x in v)
    if isinstance(v, list):
        return [conc(model, x) for x in list.__iter__(v)]
    if isinstance(v, dict):
        return {k: conc(model, x) for k, x in v.items()}
    raise Unsupported("concretise")


class TextList(PList):
    """headers.text: a list of (str, str) of unknown length."""

    def __init__(self, name):
        list.__init__(self)
        self.sym = SList(name, maker=Maker(name, {("tuple", "str", "str")}))

    def has(self, lname):
        return self.sym.exists(lambda t: t[0].lower() == lname)


def optional(name, val):
    """None or `val`, undecided"""
    return core.SOpt(z3.Const(name + ".none", z3.BoolSort()), val)
