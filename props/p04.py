"""P04: storability (httplint/cache.py)."""
from pyvc.verify import Contract, expect_ok
from pyvc.ghost import notes
from pyvc.core import s_iff, s_and
import httplint.cache as M
from spec import cache as SP
from .cache_state import State

Q = "httplint.cache.ResponseCacheChecker."


def later(names):
    return {Q + n: (lambda self, n=n: True) for n in names if hasattr(M.ResponseCacheChecker, n)}


def posts(ctx, chk, st):
    v = st.view()
    priv, shared, want, _ = SP.storable(v)
    ctx.cover(want[0] if want else "vary star")
    ctx.prove(s_iff(chk.store_private, priv), "store_private is the specified verdict", info=str(want))
    ctx.prove(s_iff(chk.store_shared, shared), "store_shared is the specified verdict", info=str(want))
    got = notes(SP.STORE_NOTES)
    ctx.prove([r.name for r in got] == want, "exactly the specified storability note is added",
              info=f"expected {want}, got {got}")
    for r in got:
        owner = "request" if r.name == "STORE_METHOD_UNCACHEABLE" else "response"
        ctx.prove(r.owner == owner, "the storability note is added to the right message")
    conflict = notes({"STORE_PRIVATE_PUBLIC_CONFLICT"})
    if want == ["STORE_PRIVATE_CC"]:
        ctx.prove(s_iff(len(conflict) == 1, v.cc("public")),
                  "private with public gets exactly one conflict note")
    else:
        ctx.prove(len(conflict) == 0, "no conflict note otherwise")


def whole(ctx):
    st = State()
    chk = expect_ok(ctx, "ResponseCacheChecker()", M.ResponseCacheChecker, st.response)
    posts(ctx, chk, st)


def frame(fn):
    def body(ctx):
        st = State()
        saved = ctx.stubs
        ctx.stubs = dict(saved, **{Q + "check_basic": lambda self: False})
        chk = M.ResponseCacheChecker.__new__(M.ResponseCacheChecker)
        expect_ok(ctx, "__init__", M.ResponseCacheChecker.__init__, chk, st.response)
        ctx.stubs = saved
        chk.store_private, chk.store_shared = "P", "S"
        chk.age = __import__("pyvc.core", fromlist=["x"]).new_real("age_state")
        for a in ("has_explicit_freshness", "has_heuristic_freshness", "is_fresh", "is_shared_fresh"):
            setattr(chk, a, __import__("pyvc.core", fromlist=["x"]).new_bool(a))
        ctx.trace.clear()
        expect_ok(ctx, fn, getattr(chk, fn))
        ctx.prove(chk.store_private == "P" and chk.store_shared == "S", f"{fn} leaves the verdict alone")
        ctx.prove(not notes(SP.STORE_NOTES), f"{fn} adds no storability note")

    return body


def contracts():
    out = [Contract("ResponseCacheChecker.__init__/storability", whole,
                    functions=[Q + "__init__", Q + "check_basic", Q + "check_storable"],
                    stubs=lambda: later(["check_age", "check_freshness", "check_stale"]),
                    covers=sorted(SP.STORE_NOTES) + ["vary star"])]
    for fn in ("check_age", "check_freshness", "check_stale"):
        out.append(Contract(f"{fn}/frame of the verdict", frame(fn), functions=[Q + fn]))
    return out
