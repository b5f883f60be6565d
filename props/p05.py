"""P05: current age and freshness lifetimes (httplint/cache.py)."""
from pyvc.verify import Contract, expect_ok
from pyvc.ghost import notes
from pyvc.core import ctx as C, new_real, new_int, new_bool, s_iff, s_and, mkbool, z3val, s_not
import httplint.cache as M
from spec import cache as SP
from .cache_state import State

Q = "httplint.cache.ResponseCacheChecker."


def fresh_checker(ctx, st):
    """a checker whose attributes are those its own __init__ sets, no step run yet"""
    saved = ctx.stubs
    ctx.stubs = dict(saved, **{Q + "check_basic": lambda self: False})
    chk = M.ResponseCacheChecker.__new__(M.ResponseCacheChecker)
    expect_ok(ctx, "__init__", M.ResponseCacheChecker.__init__, chk, st.response)
    ctx.stubs = saved
    ctx.trace.clear()
    return chk


def age(ctx):
    st = State()
    chk = fresh_checker(ctx, st)
    ctx.cover("state")
    expect_ok(ctx, "check_age", chk.check_age)
    want = SP.age(st.view())
    ctx.prove(chk.age == want, "age is the specified current age", info=lambda: f"{chk.age!r} vs {want!r}")
    ctx.prove(chk.age >= 0, "age is not negative")
    n = notes({"CURRENT_AGE"})
    ctx.prove(s_iff(len(n) == 1, want >= 1), "an age of a second or more is noted once")
    ctx.prove(chk.freshness_lifetime_private == 0 and chk.freshness_lifetime_shared == 0,
              "check_age leaves the lifetimes alone")
    for r in n:
        v = r.vars.get("age")
        if v is not None and hasattr(v, "utime"):
            ctx.prove(v.utime - v.now == want, "the noted age is the age")


def lifetimes(ctx):
    st = State()
    chk = fresh_checker(ctx, st)
    a = new_real("age_state")
    chk.age = a
    ctx.cover("state")
    expect_ok(ctx, "check_freshness", chk.check_freshness)
    p, s, explicit = SP.lifetimes(st.view())
    ctx.prove(chk.freshness_lifetime_private == p, "private lifetime is the specified one",
              info=lambda: f"{chk.freshness_lifetime_private!r} vs {p!r}")
    ctx.prove(chk.freshness_lifetime_shared == s, "shared lifetime is the specified one",
              info=lambda: f"{chk.freshness_lifetime_shared!r} vs {s!r}")
    ctx.prove(chk.age == a, "check_freshness leaves the age alone")


def pipeline(ctx):
    """age and lifetimes are computed exactly when the response is storable, in that order"""
    st = State()
    ran = []
    st_age = {}

    def stub(n, ret):
        def f(self):
            ran.append(n)
            return ret

        return f

    saved = ctx.stubs
    ctx.stubs = dict(saved, **{Q + n: stub(n, r) for n, r in
                               (("check_age", True), ("check_freshness", True), ("check_stale", True))})
    expect_ok(ctx, "ResponseCacheChecker()", M.ResponseCacheChecker, st.response)
    go = SP.storable(st.view())[3]
    ctx.cover("go" if go else "stop")
    ctx.prove(ran == (["check_age", "check_freshness", "check_stale"] if go else []),
              "age, freshness and stale checks run in order exactly for storable responses", info=str(ran))


def contracts():
    return [
        Contract("check_age", age, functions=[Q + "check_age", Q + "__init__"], covers=["state"]),
        Contract("check_freshness/lifetimes", lifetimes, functions=[Q + "check_freshness"], covers=["state"]),
        Contract("__init__/pipeline", pipeline, functions=[Q + "__init__"], covers=["go", "stop"]),
    ]
