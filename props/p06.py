"""P06: freshness and stale-serving notes (httplint/cache.py)."""
from pyvc.verify import Contract, expect_ok
from pyvc.ghost import notes
from pyvc.core import new_real, new_int, new_bool, s_iff
import httplint.cache as M
from spec import cache as SP
from .cache_state import State
from .p05 import fresh_checker, pipeline

Q = "httplint.cache.ResponseCacheChecker."


def seconds(v):
    return v.utime - v.now


def freshness(ctx):
    st = State()
    chk = fresh_checker(ctx, st)
    a = new_real("age_state")
    ctx.assume(a >= 0)
    chk.age = a
    ret = expect_ok(ctx, "check_freshness", chk.check_freshness)
    v = st.view()
    p, s, explicit = SP.lifetimes(v)
    verdict, ps, ss, go = SP.freshness(v, a, p, s, explicit)
    ctx.cover(verdict)
    got = notes(SP.FRESH_NOTES)
    ctx.prove([r.name for r in got] == [verdict], "exactly the specified freshness verdict is noted",
              info=lambda: f"expected {verdict}, got {got}")
    ctx.prove(bool(ret) == go, "the stale checks follow unless no-cache")
    r = got[0]
    if verdict == "FRESHNESS_SHARED_PRIVATE":
        ctx.prove(r.vars["private_status"] == ps, "the private cache is labelled correctly")
        ctx.prove(r.vars["shared_status"] == ss, "the shared cache is labelled correctly")
    ctx.prove(not notes(SP.STALE_NOTES), "check_freshness adds no stale-serving note")
    # what check_stale relies on (its precondition)
    ctx.prove(s_iff(chk.is_fresh, p > a), "is_fresh holds exactly when the private lifetime exceeds the age")
    ctx.prove(s_iff(chk.is_shared_fresh, s > a),
              "is_shared_fresh holds exactly when the shared lifetime exceeds the age")
    ctx.prove(s_iff(chk.has_explicit_freshness, explicit), "explicit freshness is recognised")


def stale(ctx):
    st = State()
    chk = fresh_checker(ctx, st)
    v = st.view()
    a = new_real("age_state")
    ctx.assume(a >= 0)
    p, s, explicit = SP.lifetimes(v)
    chk.age, chk.freshness_lifetime_private, chk.freshness_lifetime_shared = a, p, s
    chk.is_fresh, chk.is_shared_fresh, chk.has_explicit_freshness = p > a, s > a, explicit
    chk.has_heuristic_freshness = new_bool("heuristic")
    expect_ok(ctx, "check_stale", chk.check_stale)
    want = SP.stale(v, a, p, s, explicit)
    for n in want:
        ctx.cover(n)
    got = [r.name for r in notes(SP.STALE_NOTES | SP.FRESH_NOTES)]
    ctx.prove(got == want, "exactly the specified stale-serving notes are added",
              info=f"expected {want}, got {got}")


def contracts():
    return [
        Contract("check_freshness/verdict", freshness, functions=[Q + "check_freshness"],
                 covers=sorted(SP.FRESH_NOTES)),
        Contract("check_stale", stale, functions=[Q + "check_stale"], covers=sorted(SP.STALE_NOTES)),
        Contract("__init__/pipeline", pipeline, functions=[Q + "__init__"], covers=["go", "stop"]),
    ]
