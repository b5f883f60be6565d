"""PyVC core: symbolic values, path exploration and proof obligations.

The verifier runs the *real* functions of /repo (instrumented mechanically when they are
imported, see instr.py) on symbolic values.  CPython executes the control flow; every branch on
a symbolic condition is explored on both sides (depth first, by re-execution with a decision
prefix), loops over symbolic data are cut with invariants, callees under contract are replaced
by their contracts, and each postcondition on each path is a verification condition given to
z3.  There is no bound on values, lengths or iterations; what is outside the supported subset
raises Unsupported, which never counts as a proof.
"""
from __future__ import annotations

import re
import time
import z3


class Unsupported(BaseException):
    """The code under verification left the supported subset (a tool limit, not a violation)."""


class PathEnd(BaseException):
    """Ends a path normally (after a loop-cut iteration)."""


class Infeasible(BaseException):
    """The current path condition is contradictory."""


class Budget(BaseException):
    """Path or time budget used up (a tool limit)."""


CTX: "Ctx | None" = None


def ctx() -> "Ctx":
    if CTX is None:
        raise Unsupported("no active context")
    return CTX


def z3val(x):
    """A z3 term for a Python scalar or proxy."""
    if type(x) in OPTS:
        x = x.force()
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else _uns(f"float {x}")
    if isinstance(x, str):
        return z3.StringVal(_zstr(x))
    if isinstance(x, bytes):
        return z3.StringVal(_zstr(x.decode("latin-1")))
    raise Unsupported(f"no term for {type(x).__name__}")


def _zstr(s):
    out = []
    for c in s:
        o = ord(c)
        if c == "\\" or o < 32 or o > 126:
            out.append("\\u{%x}" % o)
        else:
            out.append(c)
    return "".join(out)


def _uns(msg):
    raise Unsupported(msg)


def zstr_value(v) -> str:
    """Python string for a z3 string literal."""
    s = v.as_string()
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


# ------------------------------------------------------------------------------------------
class Ctx:
    """One exploration: a set of paths through one function under contract."""

    def __init__(self, name, max_paths=4000, max_secs=120.0, feas_ms=1500, proof_ms=15000):
        self.name = name
        self.texts = {}  # named languages remembered of the texts a loop makes (texts.py)
        self.find_chars = ()  # characters for which find() is known by its definition only
        self.max_paths, self.max_secs = max_paths, max_secs
        self.feas_ms, self.proof_ms = feas_ms, proof_ms
        self.t0 = time.time()
        self.solver_secs = 0.0
        self.queries = 0
        self.obligations = []  # dicts
        self.failures = []
        self.undecided = []
        self.paths = 0
        self.ended = 0
        self.reached = {}
        self.assumed = set()  # external models used
        self.loop_shapes = {}  # loop id -> {var: set(shape)}
        self.loop_heap = {}  # loop id -> set of object names mutated
        self.restart = False
        self.loop_changed = {}  # loop id -> locals that an iteration changes
        self.loop_emits = set()  # loops whose iterations add notes, under an `emit` contract
        self.loop_dropped = set()  # candidate invariants found not to hold
        self.trace_loops = set()  # loops whose iterations add notes and have no contract for them
        self.loop_specs = {}
        self.stubs = {}  # qualified name -> stub callable
        self.stubbed = set()
        self.functions = set()
        self.patterns = set()  # (kind, pattern, flags) matched against texts that are not known
        self.begin([])

    # --- one path
    def begin(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.fresh_n = {}
        self.pc = []
        self.deep_facts = []  # facts used only where a proof fails without them
        self.subst = []  # (atom or term, value) known on this path
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        self.axioms_seen = set()
        self.memo = {}
        self.alive = {}
        self.heap = []  # registered mutable objects (obj, name)
        self.alloc_n = {}
        self.loops_active = []
        self.trace = []
        self.trace_lost = None
        self.approx = False  # path used an over-approximation (havoc / uninterpreted result)
        self.obl_n = {}

    def fresh(self, base, sort):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        nm = base if n == 0 else f"{base}!{n}"
        return z3.Const(nm, sort)

    def assume(self, e):
        if isinstance(e, SBool):
            e = e.e
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(e)
        self.solver.add(e)

    def deep(self, e):
        """A (true) fact that is expensive for the solver: used only when an obligation does not
        go through without it."""
        self.deep_facts.append(e)

    def use_deep(self):
        fs, self.deep_facts = self.deep_facts, []
        for e in fs:
            self.assume(e)
        return bool(fs)

    def axiom(self, key, make):
        """Add a (true) instance of a background axiom once per path."""
        if key in self.axioms_seen:
            return
        self.axioms_seen.add(key)
        for a in make():
            self.solver.add(a)
            self.pc.append(a)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_secs += time.time() - t
        self.queries += 1
        return r

    def feasible(self, e):
        return self._check(e) != z3.unsat

    def decide(self, e):
        """Fork on a z3 Bool; returns the Python bool taken on this path."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.subst:
            e = z3.simplify(z3.substitute(e, *self.subst))
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        neg = z3.is_not(e)
        atom = e.arg(0) if neg else e
        if self._long_text(atom):
            # solvers build texts of that length to decide this: only spelt out where a proof needs it
            p = z3.Bool(f"long_{atom.sexpr()}")
            if kid(p) not in self.memo:
                self.memo[kid(p)] = p
                self.deep(p == atom)
            atom, e = p, z3.Not(p) if neg else p
        cheap = self._text_eq(atom)
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self._take(e, d, atom, neg, cheap)
            return d
        if time.time() - self.t0 > self.max_secs:
            raise Budget("time")
        if cheap or self.free is not None and e.eq(self.free):  # (nothing is known of a choice)
            # comparison of a text with a literal: both outcomes are explored; a contradictory
            # one is discharged with its obligations
            t = f = True
        else:
            t = self.feasible(e)
            f = self.feasible(z3.Not(e)) if t else True
        if t and f:
            self.pending.append(self.taken + [False])
            d = True
        else:
            d = bool(t)
        self._take(e, d, atom, neg, cheap)
        return d

    @staticmethod
    def _long_text(atom):
        if atom.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return False
        a, n = atom.arg(0), atom.arg(1)
        if not z3.is_int_value(n) or n.as_long() <= 100:
            return False
        todo = [a]
        while todo:
            x = todo.pop()
            if x.decl().kind() == z3.Z3_OP_ADD:
                todo.extend(x.children())
            elif x.decl().kind() != z3.Z3_OP_SEQ_LENGTH:
                return False
        return True

    @staticmethod
    def _text_eq(atom):
        if not z3.is_eq(atom) or atom.arg(0).sort() != S:
            return False
        return z3.is_string_value(atom.arg(0)) != z3.is_string_value(atom.arg(1))

    def _take(self, e, d, atom, neg, cheap):
        self.taken.append(d)
        self.solver.add(e if d else z3.Not(e))
        self.pc.append(e if d else z3.Not(e))
        v = d != neg
        if cheap:
            a, b = atom.arg(0), atom.arg(1)
            if z3.is_string_value(a):
                a, b = b, a
            if v:
                self.subst.append((a, b))
                from . import models

                for d, _ in list(self.memo.get(("langs", kid(a)), {}).values()):
                    models.literal_in(self, d, a, b)
            else:
                self.subst.append((atom, z3.BoolVal(False)))
        elif z3.is_const(atom) and z3.is_bool(atom):
            self.subst.append((atom, z3.BoolVal(v)))

    def choose(self, n, label=""):
        """Non-deterministic choice among n alternatives (all explored)."""
        for k in range(n - 1):
            b = self.fresh(f"choice_{label}", z3.BoolSort())
            self.free = b
            if self.decide(b):
                return k
        return n - 1

    # --- obligations
    def prove(self, cond, clause, info=None, by="evaluation"):
        n = self.obl_n.get(clause, 0)
        self.obl_n[clause] = n + 1
        rec = {"clause": clause, "path": self.paths}
        side = self.only is not None and not self.only(clause)  # another property's: not this one's to report
        if isinstance(cond, SBool):
            cond = cond.e
        if isinstance(cond, bool) or cond is None:
            rec["by"] = by
            ok = bool(cond)
            if not ok:
                self.solver.set("timeout", self.proof_ms)
                dead = self._check() == z3.unsat or self.use_deep() and self._check() == z3.unsat
                self.solver.set("timeout", self.feas_ms)
                if dead:
                    raise Infeasible()
        elif side and self.only(None):
            return True
        else:
            e = z3.simplify(cond)
            if self.subst:
                e = z3.simplify(z3.substitute(e, *self.subst))
            if z3.is_true(e):
                rec["by"], ok = "simplifier", True
            else:
                rec["by"] = "z3"
                self.solver.set("timeout", self.proof_ms)
                r = self._check(z3.Not(e))
                if r != z3.unsat and self.use_deep():
                    r = self._check(z3.Not(e))
                self.solver.set("timeout", self.feas_ms)
                if r == z3.unknown:
                    r = self._second_opinion(e)
                    rec["by"] = "z3-fresh"
                if r == z3.unknown:
                    rec["result"] = "unknown"
                    self.obligations.append(rec)
                    self.undecided.append({"clause": clause, "why": self.solver.reason_unknown()})
                    return False
                ok = r == z3.unsat
                if not ok and not side:
                    self.solver.add(z3.Not(e))
        if side and not ok:
            rec["result"] = "unknown"
            self.obligations.append(rec)
            self.undecided.append({"clause": clause, "why": "does not hold here, and is the subject of another property"})
            return False
        rec["result"] = "discharged" if ok else "failed"
        self.obligations.append(rec)
        if not ok:
            model = None
            self.solver.set("timeout", self.proof_ms)
            if self._check() == z3.sat:
                model = self.solver.model()
            self.solver.set("timeout", self.feas_ms)
            self.failures.append(
                {
                    "clause": clause,
                    "info": info() if callable(info) else info,
                    "pc": [str(p) for p in self.pc],
                    "model": {str(d): str(model[d]) for d in model.decls()} if model else None,
                    "witness": self.witness(model) if model is not None and self.witness else None,
                    "approx": self.approx,
                }
            )
            raise PathEnd()
        return True

    witness = None
    variants = None  # while loop -> the measure that each of its iterations makes smaller (None: not asked for)
    only = None
    free = None
    elements = False  # element expressions of comprehensions are evaluated for what they raise
    loose = False  # whether an element of a list of unknown length satisfies something is not tracked

    def _second_opinion(self, e):
        s = z3.Solver()
        s.set("timeout", self.proof_ms)
        s.add(*self.pc)
        s.add(z3.Not(e))
        t = time.time()
        r = s.check()
        self.solver_secs += time.time() - t
        self.queries += 1
        return r

    def cover(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    # --- exploration
    def explore(self, body):
        """body() runs one path (pre-state, call, postconditions)."""
        global CTX
        restarts = 0
        while True:
            self.restart = False
            work = [[]]
            self.obligations, self.failures, self.undecided = [], [], []
            if self.variants is not None:
                self.variants = {k: v for k, v in self.variants.items() if isinstance(k, tuple)}
            self.paths = self.ended = 0
            self.reached = {}
            while work:
                if self.paths >= self.max_paths:
                    raise Budget(f"{self.max_paths} paths")
                if time.time() - self.t0 > self.max_secs:
                    raise Budget("time")
                prefix = work.pop()
                self.begin(prefix)
                CTX = self
                try:
                    body()
                    self.ended += 1
                except PathEnd:
                    self.ended += 1
                except Infeasible:
                    pass
                finally:
                    CTX = None
                self.paths += 1
                work.extend(self.pending)
                if self.restart or len(self.failures) >= 6:
                    break
            if not self.restart:
                return
            restarts += 1
            if restarts > 40:
                raise Unsupported("loop frame inference does not converge")


# ------------------------------------------------------------------------------------------
class Sym:
    __slots__ = ("e", "__weakref__")
    pytype: type = object

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return self.pytype

    def __hash__(self):
        raise Unsupported("hash of symbolic value")

    def __repr__(self):
        return f"<{type(self).__name__} {self.e}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if hasattr(self.pytype, n):
            raise Unsupported(f"{self.pytype.__name__}.{n} on a symbolic value")
        raise AttributeError(f"'{self.pytype.__name__}' object has no attribute '{n}'")


def kid(e):
    """A key for an expression, which lives as long as the path (z3 reuses the numbers of dead ones)."""
    i = e.get_id()
    c = ctx()
    if c is not None:
        c.alive[i] = e
    return i


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


class SBool(Sym):
    __slots__ = ()
    pytype = bool

    def __lt__(self, o):
        return SInt(_b2i(self.e)) < o

    def __le__(self, o):
        return SInt(_b2i(self.e)) <= o

    def __gt__(self, o):
        return SInt(_b2i(self.e)) > o

    def __ge__(self, o):
        return SInt(_b2i(self.e)) >= o

    def __bool__(self):
        return ctx().decide(self.e)

    def __eq__(self, o):
        o2 = _num(o)
        if o2 is None:
            return False
        if z3.is_bool(o2):
            return SBool(self.e == o2)
        return SBool(_b2i(self.e) == o2)

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return s_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)

    __ror__ = __or__

    def __add__(self, o):
        return SInt(_b2i(self.e)) + o

    __radd__ = __add__


def _b2i(e):
    return z3.If(e, z3.IntVal(1), z3.IntVal(0))


def _num(o):
    """numeric z3 term or None if not numeric"""
    if is_sym(o):
        if type(o) in (SInt, SReal, SBool):
            return o.e
        return None
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if isinstance(o, (int, float)):
        return z3val(o)
    return None


def _arith(o):
    t = _num(o)
    if t is not None and z3.is_bool(t):
        return _b2i(t)
    return t


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def mknum(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_int(e):
        return SInt(e)
    return SReal(e)


def tb(x):
    """z3 Bool for the truth value of x, without forking where possible."""
    if is_sym(x):
        if type(x) is SBool:
            return x.e
        if type(x) is SDyn:
            return tb(x.force())
        if type(x) in OPTS:
            return z3.And(z3.Not(x.none), tb(x.val))
        if type(x) in (SInt, SReal):
            return x.e != 0
        if type(x) in (SStr, SBytes):
            return x.e != z3.StringVal("")
        return z3.BoolVal(bool(x))
    return z3.BoolVal(bool(x))


def s_and(*xs):
    return mkbool(z3.And(*[tb(x) for x in xs]))


def s_or(*xs):
    return mkbool(z3.Or(*[tb(x) for x in xs]))


def s_not(x):
    return mkbool(z3.Not(tb(x)))


def s_implies(a, b):
    return mkbool(z3.Implies(tb(a), tb(b)))


def s_iff(a, b):
    return mkbool(tb(a) == tb(b))


def s_if(c, a, b):
    """if-then-else without forking; numeric, boolean or string."""
    c = tb(c)
    if z3.is_true(z3.simplify(c)):
        return a
    if z3.is_false(z3.simplify(c)):
        return b
    x, y = z3val(a), z3val(b)
    if z3.is_arith(x) and z3.is_arith(y) and x.sort() != y.sort():
        x = z3.ToReal(x) if z3.is_int(x) else x
        y = z3.ToReal(y) if z3.is_int(y) else y
    return wrap(z3.If(c, x, y), a)


def wrap(e, like=None):
    if z3.is_bool(e):
        return mkbool(e)
    if z3.is_arith(e):
        return mknum(e)
    if e.sort() == z3.StringSort():
        if is_sym(like) and type(like) is SBytes or isinstance(like, bytes):
            return mkbytes(e)
        return mkstr(e)
    raise Unsupported(f"wrap {e.sort()}")


class SNum(Sym):
    __slots__ = ()

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def _bin(self, o, f):
        if type(o) in OPTS:
            o = o.force()
        t = _arith(o)
        if t is None:
            return NotImplemented
        a = self.e
        if z3.is_int(a) and not z3.is_int(t):
            a = z3.ToReal(a)
        elif z3.is_int(t) and not z3.is_int(a):
            t = z3.ToReal(t)
        r = f(a, t)
        return wrap(r)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mknum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if type(o) in OPTS:
            return o == self
        r = self._bin(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if type(o) in OPTS:
            return o != self
        r = self._bin(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __truediv__(self, o):
        t = _arith(o)
        if t is None:
            return NotImplemented
        if ctx().decide(t == 0):
            raise ZeroDivisionError("division by zero")
        a = self.e if not z3.is_int(self.e) else z3.ToReal(self.e)
        b = t if not z3.is_int(t) else z3.ToReal(t)
        return SReal(a / b)

    __hash__ = Sym.__hash__

    def __format__(self, spec):
        raise Unsupported("format of symbolic number")

    __str__ = Sym.__repr__


class SInt(SNum):
    __slots__ = ()
    pytype = int

    def __floordiv__(self, o):
        t = _arith(o)
        if t is None or not z3.is_int(t):
            return NotImplemented
        if ctx().decide(t == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(o, int) and o > 0:
            return mknum(self.e / t)
        raise Unsupported("floor division by a symbolic or negative number")

    def __mod__(self, o):
        t = _arith(o)
        if t is None or not z3.is_int(t):
            return NotImplemented
        if isinstance(o, int) and o > 0:
            return mknum(self.e % t)
        raise Unsupported("mod by a symbolic or negative number")

    def __and__(self, o):
        if isinstance(o, int) and not is_sym(o) and o >= 0:
            # requires a non-negative operand; bits extracted arithmetically
            ctx().prove(self.e >= 0, "internal: bit operation on a non-negative integer")
            total = z3.IntVal(0)
            for b in range(o.bit_length()):
                if o >> b & 1:
                    total = total + ((self.e / (1 << b)) % 2) * (1 << b)
            return mknum(total)
        raise Unsupported("bit-and")

    __rand__ = __and__

    def __index__(self):
        raise Unsupported("native index with a symbolic integer")

    def __int__(self):
        raise Unsupported("native int() of symbolic integer")


class SReal(SNum):
    __slots__ = ()
    pytype = float


# ------------------------------------------------------------------------------------------
# strings and bytes (both as z3 strings; bytes are strings of characters 0..255)
S = z3.StringSort()
_lower = z3.Function("lower", S, S)
_upper = z3.Function("upper", S, S)
_strip = z3.Function("strip", S, S)
_isdigit = z3.Function("isdigit", S, z3.BoolSort())
_int_of = z3.Function("int_of", S, z3.IntSort())
_int_ok = z3.Function("int_ok", S, z3.BoolSort())
_str_of_int = z3.Function("str_of_int", z3.IntSort(), S)


def mkstr(e, parts=None):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return zstr_value(e)
    return SStr(e)


def mkbytes(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return zstr_value(e).encode("latin-1", "replace")
    return SBytes(e)


WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"
BWS_ = " \t\n\r\x0b\x0c"


def _len(x):
    return x.slen() if is_sym(x) else len(x)


def find_char(x):
    return z3.Function(f"find_{ord(x):02x}", S, z3.IntSort(), z3.IntSort())


def text_value(x):
    """the text of a literal"""
    if isinstance(x, bytes) and not is_sym(x):
        return x.decode("latin-1")
    return x if isinstance(x, str) and not is_sym(x) else None


class SText(Sym):
    """Common part of SStr and SBytes."""

    __slots__ = ()

    def _mk(self, e):
        return mkbytes(e) if type(self) is SBytes else mkstr(e)

    def _t(self, o):
        if type(o) in OPTS:
            o = o.force()
        if is_sym(o):
            return o.e if type(o) is type(self) else None
        if isinstance(o, self.pytype):
            return z3val(o)
        return None

    def __bool__(self):
        return ctx().decide(self.e != z3.StringVal(""))

    def slen(self):
        return mknum(z3.Length(self.e))

    def __len__(self):
        raise Unsupported("native len()")

    def __eq__(self, o):
        if type(o) in OPTS:
            return o == self
        t = self._t(o)
        if t is None:
            return False
        return mkbool(_streq(self.e, t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r)

    __hash__ = Sym.__hash__

    def __add__(self, o):
        t = self._t(o)
        if t is None:
            raise TypeError("can only concatenate")
        return self._mk(z3.Concat(self.e, t))

    def __radd__(self, o):
        t = self._t(o)
        if t is None:
            raise TypeError("can only concatenate")
        return self._mk(z3.Concat(t, self.e))

    def __mul__(self, o):
        raise Unsupported("string repetition")

    __rmul__ = __mul__

    def scontains(self, o):
        t = self._t(o)
        if t is None:
            if type(self) is SBytes and isinstance(o, int):
                raise Unsupported("int in bytes")
            raise TypeError("'in <string>' requires string as left operand")
        self._either_case("has", o, lambda x: z3.Contains(x, t))
        return mkbool(z3.Contains(self.e, t))

    def __contains__(self, o):
        return bool(self.scontains(o))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith range")
        if isinstance(p, tuple):
            return s_or(*[self.startswith(q) for q in p])
        if not is_sym(p) and z3.is_app(self.e) and self.e.decl().name() in REPLACED:
            return self.getitem(slice(0, len(p))) == p
        self._either_case("begins", p, lambda x: z3.PrefixOf(self._t(p), x))
        if self._one_char(p):
            return self._end_is(0, p)
        return mkbool(z3.PrefixOf(self._t(p), self.e))

    def _cased(self, *literals):
        """x, when this is lower(x) and the literals are the same in either case"""
        if type(self) is SStr and z3.is_app(self.e) and self.e.decl().name() == "lower":
            if all(type(t) is str and t.lower() == t == t.upper() for t in literals):
                return self.e.arg(0)
        return None

    def _either_case(self, label, p, f):
        """f is said of a text and a literal without letters: of lower(x) exactly when of x"""
        x = self._cased(p)
        if x is not None:
            ctx().axiom((label, kid(x), p), lambda: [f(self.e) == f(x)])

    def _one_char(self, p):
        return getattr(ctx(), "derive", False) and type(self) is SStr and type(p) is str and len(p) == 1

    def _end_is(self, k, p):
        """the text begins (k = 0) or ends (k = -1) with the character p"""
        from . import models, relang

        n = z3.Length(self.e)
        ch = z3.SubString(self.e, z3.IntVal(0) if k == 0 else n - 1, 1)
        models.part_of(self, ("char", k), ch, relang.first if k == 0 else relang.last, [n >= 1])
        return self._mk(ch) == p  # there is no such character in an empty text

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith range")
        if isinstance(p, tuple):
            return s_or(*[self.endswith(q) for q in p])
        self._either_case("ends", p, lambda x: z3.SuffixOf(self._t(p), x))
        if self._one_char(p):
            return self._end_is(-1, p)
        return mkbool(z3.SuffixOf(self._t(p), self.e))

    def removeprefix(self, p):
        return self.getitem(slice(_len(p), None)) if self.startswith(p) else self

    def removesuffix(self, p):
        if not self.endswith(p):
            return self
        return self.getitem(slice(None, self.slen() - _len(p)))

    def _fn(self, f, x=None):
        return f(self.e)

    def lower(self):
        r = _lower(self.e)
        ctx().axiom(
            ("lower", kid(self.e)),
            lambda: [z3.Length(r) == z3.Length(self.e), _lower(r) == r],
        )
        return self._mk(r)

    def upper(self):
        ctx().approx = True
        return self._mk(_upper(self.e))

    def strip(self, chars=None):
        if chars is not None:
            return self._generic("strip" + repr(chars))
        if type(self) is SStr and z3.is_app(self.e) and self.e.decl().name() == "lower":
            # no change of case makes or unmakes white space
            return self._mk(self.e.arg(0)).strip().lower()
        r = _strip(self.e)
        ws = WS if type(self) is SStr else BWS_
        def ax():
            out = [
                z3.Length(r) <= z3.Length(self.e),
                z3.Contains(self.e, r),
                _strip(r) == r,
                z3.Implies(self.e == z3.StringVal(""), r == z3.StringVal("")),
            ]
            return out
        ctx().axiom(("strip", kid(self.e)), ax)
        from . import models, relang

        models.part_of(self, "strip", r, relang.stripped)
        return self._mk(r)

    def lstrip(self, chars=None):
        return self._generic("lstrip" + repr(chars))

    def rstrip(self, chars=None):
        return self._generic("rstrip" + repr(chars))

    def _generic(self, name, *args):
        """uninterpreted str->str operation, keyed by name"""
        f = z3.Function("op_" + name, S, S)
        return self._mk(f(self.e))

    def isdigit(self):
        r = _isdigit(self.e)
        ctx().axiom(
            ("isdigit", kid(self.e)),
            lambda: [z3.Implies(self.e == z3.StringVal(""), z3.Not(r))],
        )
        return mkbool(r)

    def isascii(self):
        if type(self) is SStr:
            from . import models, relang

            return mkbool(models.in_lang(self, relang.lang("[\x00-\x7f]*\\Z")))
        return mkbool(z3.Function("is_ascii", S, z3.BoolSort())(self.e))

    def isprintable(self):
        return mkbool(z3.Function("isprintable", S, z3.BoolSort())(self.e))

    def isalpha(self):
        return mkbool(z3.Function("isalpha", S, z3.BoolSort())(self.e))

    def isalnum(self):
        return mkbool(z3.Function("isalnum", S, z3.BoolSort())(self.e))

    def isspace(self):
        return mkbool(z3.Function("isspace", S, z3.BoolSort())(self.e))

    def isupper(self):
        return mkbool(z3.Function("isupper", S, z3.BoolSort())(self.e))

    def islower(self):
        return mkbool(z3.Function("islower", S, z3.BoolSort())(self.e))

    def replace(self, a, b, *c):
        if c:
            raise Unsupported("replace count")
        if is_sym(a) or is_sym(b):
            raise Unsupported("replace with symbolic pattern")
        f = z3.Function(f"replace_{a!r}_{b!r}", S, S)
        REPLACED[f.name()] = (text_value(a), text_value(b))
        r = f(self.e)
        ta, tbv = self._t(a), self._t(b)
        def ax():
            out = [z3.Implies(z3.Not(z3.Contains(self.e, ta)), r == self.e)]
            if a not in b:
                out.append(z3.Not(z3.Contains(r, ta)))
            if len(a) == len(b):
                out.append(z3.Length(r) == z3.Length(self.e))
            return out
        ctx().axiom(("replace", a, b, kid(self.e)), ax)
        return self._mk(r)

    def _find_char(self, sub, start):
        g = find_char(text_value(sub))
        n, i = z3.Length(self.e), z3val(start)
        i = z3.IntVal(i) if isinstance(i, int) else i
        r = g(self.e, i)
        ctx().axiom(("find", kid(r)), lambda: [
            z3.Or(r == -1, z3.And(r >= i, r < n)), z3.Implies(i >= n, r == -1)])
        return r

    def find(self, sub, *a):
        start = a[0] if a else 0
        if text_value(sub) in ctx().find_chars:
            return mknum(self._find_char(sub, start))
        return mknum(z3.IndexOf(self.e, self._t(sub), z3val(start)))

    def index(self, sub, *a):
        start = a[0] if a else 0
        if text_value(sub) in ctx().find_chars:
            r = self._find_char(sub, start)
        else:
            if not is_sym(sub) and len(sub) == 1 and not is_sym(start) and start == 0 and len(a) <= 1:
                if not ctx().decide(z3.Contains(self.e, self._t(sub))):
                    raise ValueError("substring not found")
                before, after = self._cut(sub)
                r = z3.Length(before)
                ctx().memo[("cutlen", kid(self.e), kid(r))] = (before, after, self._t(sub), r)
                return mknum(r)
            r = z3.IndexOf(self.e, self._t(sub), z3val(start))
        if ctx().decide(r < 0):
            raise ValueError("substring not found")
        return mknum(r)

    def rindex(self, sub, *a):
        if a:
            raise Unsupported("rindex range")
        r = z3.LastIndexOf(self.e, self._t(sub))
        if ctx().decide(z3.Not(z3.Contains(self.e, self._t(sub)))):
            raise ValueError("substring not found")
        # instances of the meaning of the last index
        ctx().axiom(
            ("rindex", kid(self.e), str(sub)),
            lambda: [r >= 0, r + z3.Length(self._t(sub)) <= z3.Length(self.e)],
        )
        return mknum(r)

    def count(self, sub, *a):
        f = z3.Function(f"count_{sub!r}", S, z3.IntSort())
        self._either_case("count", sub, f)
        r = f(self.e)
        t = self._t(sub)
        ctx().axiom(
            ("count", kid(self.e), str(sub)),
            lambda: [r >= 0, (r >= 1) == z3.Contains(self.e, t), r <= z3.Length(self.e)],
        )
        return mknum(r)

    def _cut(self, sep):
        """(before, after) the first occurrence of sep, which is known to occur"""
        t = self._t(sep)
        x = self._cased(sep)
        if x is not None:
            return tuple(SStr(part).lower().e for part in SStr(x)._cut(sep))
        if not is_sym(sep) and len(sep) == 1:
            c = ctx()
            key = ("cut", kid(self.e), str(sep))
            if key not in c.memo:
                a, b = c.fresh("before", S), c.fresh("after", S)
                c.memo[key] = (a, b, self.e)
                if c.variants is not None:
                    c.assume(z3.Length(self.e) == z3.Length(a) + z3.Length(b) + 1)
                c.deep(self.e == z3.Concat(a, t, b))
                c.deep(z3.Not(z3.Contains(a, t)))
                from . import models, relang

                models.part_of(self, ("before", sep), a, lambda d: relang.before(d, sep))
                models.part_of(self, ("after", sep), b, lambda d: relang.after(d, sep))
            return c.memo[key][:2]
        i = z3.IndexOf(self.e, t, z3.IntVal(0))
        return (z3.SubString(self.e, 0, i),
                z3.SubString(self.e, i + z3.Length(t), z3.Length(self.e) - i - z3.Length(t)))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or is_sym(sep):
            from .containers import opaque_str_list

            r = opaque_str_list(self, f"split_{sep!r}_{maxsplit}", minlen=0)
            if sep is None:
                n, s = r.sym.length, self.strip().e
                ctx().axiom(("split", r.sym.name), lambda: [(n == 0) == (s == z3.StringVal(""))] + ([n <= maxsplit + 1] if maxsplit > 0 else []))
            return r
        if 1 < maxsplit <= 4 and len(sep) == 1:
            from .containers import PList

            head, mid, tail = self.partition(sep)
            if text_value(mid) == "":
                return PList([head])
            rest = tail.split(sep, maxsplit - 1) if is_sym(tail) else PList(list(tail.split(sep, maxsplit - 1)))
            return PList([head] + list(list.__iter__(rest)))
        if maxsplit == 1:
            t = self._t(sep)
            if ctx().decide(z3.Contains(self.e, t)):
                a, b = self._cut(sep)
                from .containers import PList

                return PList([self._mk(a), self._mk(b)])
            from .containers import PList

            return PList([self])
        from .containers import opaque_str_list

        r = opaque_str_list(self, f"split_{sep!r}_{maxsplit}", minlen=1)
        n, t = r.sym.length, self._t(sep)
        ctx().axiom(("split", r.sym.name), lambda: [
            (n > 1) == z3.Contains(self.e, t),
            z3.Implies(n == 1, r.sym.elem(z3.IntVal(0)).e == self.e),
            z3.Implies(n > 1, r.sym.elem(z3.IntVal(0)).e == z3.SubString(self.e, 0, z3.IndexOf(self.e, t, 0)))])
        if maxsplit > 1:
            ctx().assume(n <= maxsplit + 1)
        return r

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == 1 and sep is not None and not is_sym(sep):
            t = self._t(sep)
            from .containers import PList

            if ctx().decide(z3.Contains(self.e, t)):
                i = z3.LastIndexOf(self.e, t)
                a = z3.SubString(self.e, 0, i)
                b = z3.SubString(self.e, i + z3.Length(t), z3.Length(self.e) - i - z3.Length(t))
                ctx().axiom(("rsplit", kid(self.e), sep), lambda: [i >= 0])
                return PList([self._mk(a), self._mk(b)])
            return PList([self])
        raise Unsupported("rsplit")

    def partition(self, sep):
        t = self._t(sep)
        if ctx().decide(z3.Contains(self.e, t)):
            a, b = self._cut(sep)
            return (self._mk(a), sep, self._mk(b))
        empty = self._t(self.pytype())
        return (self, self._mk(empty), self._mk(empty))

    def _slice_at_cut(self, k):
        """the part before, from or after a character that index() found first, when k is that slice"""
        cuts = [v for key, v in ctx().memo.items() if type(key) is tuple and key[:2] == ("cutlen", kid(self.e))]
        if not cuts:
            return None
        start, stop = _arith(k.start), _arith(k.stop)
        for before, after, sep, n in cuts:
            if stop is not None and (k.start is None or type(k.start) is int and k.start == 0) and z3.simplify(stop).eq(z3.simplify(n)):
                return before
            if start is not None and k.stop is None:
                if z3.simplify(start).eq(z3.simplify(n)):
                    return z3.Concat(sep, after)
                if z3.simplify(start).eq(z3.simplify(n + 1)):
                    return after
        return None

    def splitlines(self, *a):
        from .containers import opaque_str_list

        return opaque_str_list(self, "splitlines", minlen=0)

    def getitem(self, k):
        n = z3.Length(self.e)
        ab = REPLACED.get(self.e.decl().name()) if z3.is_app(self.e) else None
        if ab and len(ab[0]) == len(ab[1]) == 1 and type(self) is SStr:
            # character by character
            return self._mk(self.e.arg(0)).getitem(k).replace(*ab)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice step")

            cut = self._slice_at_cut(k)
            if cut is not None:
                return self._mk(cut)

            def bound(v, dflt):
                if v is None:
                    return dflt
                t = _arith(v)
                if t is None:
                    raise TypeError("slice indices must be integers or None")
                t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
                return z3.simplify(t)

            a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
            n_r = z3.If(b > a, b - a, z3.IntVal(0))
            r = z3.SubString(self.e, a, n_r)
            self._lowered(r, a, n_r)
            if k.start == 1 and k.stop == -1 and type(k.start) is int and type(k.stop) is int:
                from . import models, relang

                models.part_of(self, "inner", r, relang.inner, [n >= 2])
            return self._mk(r)
        t = _arith(k)
        if t is None:
            raise TypeError("string indices must be integers")
        if ctx().decide(z3.Or(t >= n, t < -n)):
            raise IndexError("string index out of range")
        i = z3.simplify(z3.If(t < 0, t + n, t))
        ch = z3.SubString(self.e, i, 1)
        self._lowered(ch, i, z3.IntVal(1))
        if type(k) is int and k in (0, -1):
            from . import models, relang

            models.part_of(self, ("char", k), ch, relang.first if k == 0 else relang.last, [n >= 1])
        if type(self) is SBytes:
            code = z3.StrToCode(ch)
            ctx().axiom(("code", kid(self.e), kid(i)), lambda: [code >= 0, code <= 255])
            for x in ctx().find_chars:  # the definition of find, unfolded here
                g = find_char(x)
                ctx().axiom(("unfold", x, kid(self.e), kid(i)), lambda: [
                    g(self.e, i) == z3.If(code == ord(x), i, g(self.e, i + 1))])
            return mknum(code)
        return self._mk(ch)

    def _lowered(self, r, at, n):
        """the part r of lower(x) is that part of x, in lower case"""
        x = self._cased()
        if x is not None:
            part = z3.simplify(z3.SubString(x, at, n))
            ctx().axiom(("lowered", kid(z3.simplify(r))), lambda: [r == _lower(part)])

    def __getitem__(self, k):
        return self.getitem(k)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic string")

    def __format__(self, spec):
        raise Unsupported("format")

    def __str__(self):
        raise Unsupported("native str() of symbolic text")

    def __lt__(self, o):
        return mkbool(self.e < self._t(o))

    def __le__(self, o):
        return mkbool(self.e <= self._t(o))

    def __gt__(self, o):
        return mkbool(self._t(o) < self.e)

    def __ge__(self, o):
        return mkbool(self._t(o) <= self.e)


REPLACED = {}  # function name -> what it replaces by what


def _streq(a, b):
    """string equality, deciding structured cases early"""
    a, b = z3.simplify(a), z3.simplify(b)
    for x, y in ((a, b), (b, a)):
        if z3.is_string_value(y) and z3.is_app(x):
            s = zstr_value(y)
            nm = x.decl().name()
            if nm == "lower" and s != s.lower():
                return z3.BoolVal(False)
            if nm == "strip" and s != s.strip():
                return z3.BoolVal(False)
            if nm == "str_of_int":
                if s and (s == "0" or (s.lstrip("-").isdigit() and not s.lstrip("-").startswith("0"))) and s.isascii():
                    return x.arg(0) == int(s)
                return z3.BoolVal(False)
            if nm in REPLACED and len(REPLACED[nm][0]) == len(REPLACED[nm][1]) == 1:
                # exactly the texts that have either character wherever the result has the new one
                old, new = REPLACED[nm]
                if old in s and old != new:
                    return z3.BoolVal(False)
                absent = z3.simplify(z3.Not(z3.Contains(x.arg(0), z3.StringVal(_zstr(new)))))
                if any(e.eq(absent) for e in ctx().pc):
                    return _streq(x.arg(0), z3.StringVal(_zstr(s.replace(new, old))))
                if s.count(new) <= 6:
                    ways = [""]
                    for ch in s:
                        ways = [w + c for w in ways for c in ((old, new) if ch == new else (ch,))]
                    return z3.simplify(z3.Or(*[_streq(x.arg(0), z3.StringVal(_zstr(w))) for w in ways]))
            if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT and x.num_args() == 2:
                p, q = x.arg(0), x.arg(1)
                if z3.is_string_value(p):
                    ps = zstr_value(p)
                    if not s.startswith(ps):
                        return z3.BoolVal(False)
                    return _streq(q, z3.StringVal(_zstr(s[len(ps):])))
    return a == b


class SStr(SText):
    __slots__ = ()
    pytype = str

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding in ("utf-8", "utf8"):
            # fails for lone surrogates; only what is read with some decoders can contain those
            if may_hold_surrogates(self.e) and errors == "strict" and not ctx().decide(z3.Function("no_surrogates", S, z3.BoolSort())(self.e)):
                raise UnicodeEncodeError("utf-8", "", 0, 0, "symbolic")
            ctx().assumed.add("str.encode('utf-8') does not fail for text decoded from octets (except with the surrogate handlers)")
            f = z3.Function("encode_utf8", S, S)
            return mkbytes(f(self.e))
        ok = z3.Function(f"encodable_{encoding}", S, z3.BoolSort())(self.e)
        if errors == "strict" and not ctx().decide(ok):
            raise UnicodeEncodeError(str(encoding), "", 0, 0, "symbolic")
        return mkbytes(z3.Function(f"encode_{encoding}_{errors}", S, S)(self.e))

    def join(self, it):
        from .models import str_join

        return str_join(self, it)

    def casefold(self):
        return self._generic("casefold")

    def title(self):
        return self._generic("title")

    def capitalize(self):
        return self._generic("capitalize")


SURROGATES = re.compile(r"decode_.*_surrogate|decode_(unicode-escape|raw-unicode-escape|utf-7)_|decoded$|json:")


def may_hold_surrogates(e):
    """whether lone surrogates can be in a text: some decoders and JSON make them"""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if SURROGATES.match(x.decl().name()):
            return True
        todo += x.children()
    return False


class SBytes(SText):
    __slots__ = ()
    pytype = bytes

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding if not is_sym(encoding) else None
        if enc is None:
            if errors != "strict" or type(self) is not SBytes:
                raise Unsupported("decode with a symbolic encoding")
            e = encoding.e
            if not (z3.is_app(e) and e.decl().name() == "canonical"):
                ctx().assumed.add("an encoding decodes as its canonical name does")
                e = z3.Function("canonical", S, S)(e)
            if not ctx().decide(z3.Function("text_encoding", S, z3.BoolSort())(e)):
                raise LookupError("not a text encoding")
            if not ctx().decide(z3.Function("decodable", S, S, z3.BoolSort())(e, self.e)):
                raise UnicodeDecodeError("symbolic", b"", 0, 0, "symbolic")
            return mkstr(z3.Function("decoded", S, S, S)(e, self.e))
        enc_n = enc.lower().replace("_", "-")
        if enc_n in ("ascii", "us-ascii") and errors == "strict":
            ok = z3.Function("is_ascii", S, z3.BoolSort())(self.e)
            if not ctx().decide(ok):
                raise UnicodeDecodeError("ascii", b"", 0, 0, "symbolic")
            return mkstr(self.e)
        if enc_n in ("iso-8859-1", "latin-1", "latin1"):
            return mkstr(self.e)
        if errors == "strict":
            ok = z3.Function(f"decodable_{enc_n}", S, z3.BoolSort())(self.e)
            if not ctx().decide(ok):
                raise UnicodeDecodeError(enc, b"", 0, 0, "symbolic")
        return mkstr(z3.Function(f"decode_{enc_n}_{errors}", S, S)(self.e))

    def hex(self, *a):
        return mkstr(z3.Function("hex", S, S)(self.e))


class SView(Sym):
    """a stretch [a, b) of an unbounded byte array: bytes handled one by one, without string theory"""

    __slots__ = ("f", "a", "b", "name")
    pytype = bytes

    def __init__(self, name, a=None, b=None):
        self.name = name
        self.f = z3.Function(name + "_byte", z3.IntSort(), z3.IntSort())
        if b is None:
            a, b = z3.IntVal(0), z3.Const(name + "_len", z3.IntSort())
            ctx().axiom(("view", name), lambda: [b >= 0])
        self.a, self.b = a, b
        self.e = b - a

    def slen(self):
        return mknum(z3.simplify(self.b - self.a))

    def __len__(self):
        raise Unsupported("native len of a symbolic value")

    def __bool__(self):
        return ctx().decide(self.b > self.a)

    def byte(self, i):
        c = self.f(i)
        ctx().axiom(("byte", self.name, kid(i)), lambda: [c >= 0, c <= 255])
        for x in ctx().find_chars:
            g = self._find_fn(x)
            ctx().axiom(("unfold", x, self.name, kid(i)), lambda: [
                z3.Implies(z3.And(i >= 0, i < z3.Const(self.name + "_len", z3.IntSort())),
                           g(i) == z3.If(c == ord(x), i, g(i + 1)))])
        return c

    def _find_fn(self, x):
        return z3.Function(f"{self.name}_find_{ord(x):02x}", z3.IntSort(), z3.IntSort())

    def find(self, sub, *a):
        """over the whole array only"""
        x = text_value(sub)
        end = z3.Const(self.name + "_len", z3.IntSort())
        if x is None or len(x) != 1 or x not in ctx().find_chars or len(a) > 1 or not (
                z3.is_int_value(self.a) and self.a.as_long() == 0 and self.b.eq(end)):
            raise Unsupported("find")
        i = _arith(a[0]) if a else z3.IntVal(0)
        g = self._find_fn(x)
        r = g(i)
        ctx().axiom(("findv", kid(r)), lambda: [z3.Or(r == -1, z3.And(r >= i, r < end)), z3.Implies(i >= end, r == -1)])
        return mknum(r)

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if ctx().decide(tb(r < 0)):
            raise ValueError("subsection not found")
        return r

    def startswith(self, p):
        return self.getitem(slice(0, len(p))) == p

    def __add__(self, o):
        if type(o) is SView:
            if o.name == self.name:
                if ctx().decide(self.b == o.a):
                    return SView(self.name, self.a, o.b)
                if ctx().decide(o.a == o.b):
                    return self
                if ctx().decide(self.a == self.b):
                    return o
            # some other bytes
            return SView(str(ctx().fresh("joined", z3.IntSort())), z3.IntVal(0), z3.simplify(self.e + o.e))
        if isinstance(o, bytes) and not is_sym(o):
            return self if not o else self + SView("literal_" + o.hex(), z3.IntVal(0), z3.IntVal(len(o)))
        raise Unsupported("joining byte arrays")

    def __radd__(self, o):
        if isinstance(o, bytes) and not is_sym(o):
            return self if not o else SView("literal_" + o.hex(), z3.IntVal(0), z3.IntVal(len(o))) + self
        raise Unsupported("joining byte arrays")

    def getitem(self, k):
        n = self.b - self.a
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice step")

            def bound(v, dflt):
                if v is None:
                    return dflt
                t = _arith(v)
                return z3.simplify(z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t)))

            lo, hi = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
            return SView(self.name, z3.simplify(self.a + lo), z3.simplify(self.a + z3.If(hi > lo, hi, lo)))
        t = _arith(k)
        if t is None:
            raise TypeError("byte indices must be integers or slices")
        if ctx().decide(z3.Or(t >= n, t < -n)):
            raise IndexError("index out of range")
        return mknum(self.byte(z3.simplify(self.a + z3.If(t < 0, t + n, t))))

    def __getitem__(self, k):
        return self.getitem(k)

    def __eq__(self, o):
        if type(o) is SView:
            if o.name != self.name:
                raise Unsupported("equality of different byte arrays")
            # a sufficient condition, exact for what contracts compare: the same stretch
            return mkbool(z3.And(self.a == o.a, self.b == o.b))
        if isinstance(o, bytes) and not is_sym(o):
            return mkbool(z3.And(self.b - self.a == len(o), *[
                self.byte(z3.simplify(self.a + i)) == x for i, x in enumerate(o)]))
        return False

    def __ne__(self, o):
        r = self == o
        return s_not(r) if is_sym(r) else not r


class Opaque(Sym):
    """A value known only by identity (uninterpreted)."""

    __slots__ = ("label",)
    pytype = object

    def __init__(self, label):
        self.label = label
        self.e = None

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported(f"truth of opaque {self.label}")

    def __repr__(self):
        return f"<Opaque {self.label}>"


class SEnum(Sym):
    """one of a fixed list of Python objects"""

    __slots__ = ("alts",)
    pytype = object

    def __init__(self, e, alts):
        self.e, self.alts = e, list(alts)

    def is_(self, b):
        if type(b) is SEnum:
            return s_or(*[s_and(self.is_(x), b.is_(x)) for x in self.alts])
        for i, x in enumerate(self.alts):
            if x is b:
                return mkbool(self.e == i)
        return False

    def __eq__(self, b):
        return self.is_(b)

    def __ne__(self, b):
        return s_not(self.is_(b))

    def __hash__(self):
        raise Unsupported("hash of symbolic value")

    def __bool__(self):
        raise Unsupported("truth value")

    @property
    def __name__(self):
        for i, x in enumerate(self.alts):
            if ctx().decide(self.e == i):
                return x.__name__
        raise Infeasible()


def new_enum(name, alts, idx=None):
    e = z3.Const(name, z3.IntSort()) if idx is None else z3.Function(name, z3.IntSort(), z3.IntSort())(idx)
    ctx().assume(z3.And(e >= 0, e < len(alts)))
    return SEnum(e, alts)


class SOpt(Sym):
    """None or a value, undecided until used.  `is None` and truth tests do not fork."""

    __slots__ = ("none", "val")
    pytype = object

    def __init__(self, none, val):
        self.none, self.val = none, val
        self.e = None

    @property
    def __class__(self):
        v = self.force()
        return type(None) if v is None else v.__class__

    def force(self):
        return None if ctx().decide(self.none) else self.val

    def _must(self, what):
        v = self.force()
        if v is None:
            raise TypeError(f"unsupported operand type(s) for {what}: 'NoneType'")
        return v

    def __bool__(self):
        return ctx().decide(tb(self))

    def __eq__(self, o):
        if o is None:
            return mkbool(self.none)
        if type(o) is SDyn:
            o = o.force()
            return mkbool(self.none) if o is None else mkbool(z3.And(z3.Not(self.none), tb(self.val == o)))
        if type(o) in OPTS:
            return mkbool(z3.Or(z3.And(self.none, o.none),
                                z3.And(z3.Not(self.none), z3.Not(o.none), tb(self.val == o.val))))
        return mkbool(z3.And(z3.Not(self.none), tb(self.val == o)))

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = self.force()
        if v is None:
            raise AttributeError(f"'NoneType' object has no attribute '{n}'")
        return getattr(v, n)

    def __getitem__(self, k):
        return self._must("[]")[k]

    def __repr__(self):
        return f"<SOpt {self.none} {self.val}>"


def _fwd(n):
    def f(self, *a):
        v = self._must(n)
        a = tuple(unopt(x) for x in a)
        r = getattr(v, n, None)
        if r is None or type(v) in (int, float, str):
            return getattr(v, n)(*a)
        return r(*a)

    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "lt", "le", "gt", "ge", "neg", "abs", "floordiv",
           "truediv", "mod"):
    setattr(SOpt, f"__{_n}__", _fwd(f"__{_n}__"))


class SDyn(SOpt):
    """One of several kinds of value, undecided until used: asking for its type only tells apart what the question does."""

    __slots__ = ("alts", "kept", "label", "num")

    def __init__(self, alts, label="value"):
        self.alts, self.kept, self.label, self.num, self.e = list(alts), None, label, None, None  # alts: (type, maker of a value)

    def order(self, n, o):
        """compared with a number: what kind of number it is makes no difference"""
        from numbers import Number

        if self.kept is None and all(issubclass(t, Number) for t, _ in self.alts) and isinstance(o, Number):
            if self.num is None:
                self.num = SReal(ctx().fresh(self.label, z3.RealSort()))
            return getattr(self.num, n)(o)
        return _fwd(n)(self, o)

    def __lt__(self, o):
        return self.order("__lt__", o)

    def __le__(self, o):
        return self.order("__le__", o)

    def __gt__(self, o):
        return self.order("__gt__", o)

    def __ge__(self, o):
        return self.order("__ge__", o)

    def narrow(self, pred):
        yes, no = [a for a in self.alts if pred(a[0])], [a for a in self.alts if not pred(a[0])]
        if yes and no:
            self.alts = no if ctx().choose(2, f"type of {self.label}") else yes
            return self.alts is yes
        return bool(yes)

    def force(self):
        if self.kept is None:
            k = ctx().choose(len(self.alts), f"type of {self.label}")
            self.alts = [self.alts[k]]
            self.kept = (self.alts[0][1](),)
        return self.kept[0]

    @property
    def __class__(self):
        v = self.force()
        return type(None) if v is None else v.__class__

    def __bool__(self):
        return bool(self.force())

    def __eq__(self, o):
        if o is None:
            return self.narrow(lambda t: t is type(None))
        v = self.force()
        return mkbool(tb(v == o)) if is_sym(v) else o == v if is_sym(o) else v == o

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"<SDyn {[t.__name__ for t, _ in self.alts]}>"


OPTS = (SOpt, SDyn)


def unopt(x):
    return x.force() if type(x) in OPTS else x


class Poison:
    """An unbound local after a loop cut; any use is outside the subset."""

    def _no(self, *a, **k):
        raise Unsupported("use of a variable that may be unbound after a loop")

    __bool__ = __eq__ = __getattr__ = __call__ = __add__ = __iter__ = __lt__ = __gt__ = _no
    __hash__ = None


# convenience constructors --------------------------------------------------------------------
def new_int(name, lo=None, hi=None):
    v = SInt(ctx().fresh(name, z3.IntSort()))
    if lo is not None:
        ctx().assume(v.e >= lo)
    if hi is not None:
        ctx().assume(v.e <= hi)
    return v


def new_real(name):
    return SReal(ctx().fresh(name, z3.RealSort()))


def new_bool(name):
    return SBool(ctx().fresh(name, z3.BoolSort()))


def new_str(name):
    return SStr(ctx().fresh(name, S))


def new_bytes(name):
    return SBytes(ctx().fresh(name, S))
