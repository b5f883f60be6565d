"""Runs the contracts of one property and reports every obligation.

    python3-vt -m pyvc.verify P04 [--tier quick|thorough]   -> JSON on stdout
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import instr

instr.install()

from . import core, redos  # noqa: E402
from .core import Budget, Ctx, Infeasible, PathEnd, Unsupported  # noqa: E402


class Contract:
    """One verification task: `body(ctx)` builds the pre-state, runs the real code and proves the
    postconditions.  `covers` are labels that must be reached (vacuity guard)."""

    def __init__(self, name, body, functions=(), stubs=None, loops=None, covers=(), paths=6000,
                 secs=200.0, thorough_secs=None, setup=None, note="", only=None, steps=False):
        self.name, self.body, self.functions = name, body, list(functions)
        self.stubs, self.loops, self.covers = stubs or {}, loops or {}, list(covers)
        self.paths, self.secs = paths, secs
        self.thorough_secs = thorough_secs or secs * 3
        self.setup = setup
        self.only = only
        self.note = note
        self.steps = steps  # also prove that no pattern matched takes a number of steps exponential in the text

    def run(self, tier="quick", scale=1.0):
        secs = (self.secs if tier == "quick" else self.thorough_secs) * scale
        c = Ctx(self.name, max_paths=self.paths if tier == "quick" else self.paths * 4, max_secs=secs)
        c.stubs = dict(self.stubs() if callable(self.stubs) else self.stubs)
        c.loop_specs = dict(self.loops() if callable(self.loops) else self.loops)
        c.only = self.only
        c.elements = self.only is not None
        t0 = time.time()
        why = None
        try:
            if self.steps:
                c.variants = {}
            c.explore(lambda: self.body(c))
            if self.steps:
                for lid, measure in sorted((k, v) for k, v in c.variants.items() if isinstance(k, str)):
                    rec = {"clause": f"{lid}: each iteration makes {measure or 'a measure'} smaller", "path": 0, "by": "variant inference",
                           "result": "discharged" if measure else "unknown"}
                    c.obligations.append(rec)
                    if not measure:
                        c.undecided.append({"clause": rec["clause"], "why": "no measure is found that every iteration makes smaller"})
                for kind, pattern, flags in sorted(c.patterns, key=str):
                    for pattern_, witness in self.steps(pattern) if callable(self.steps) else [(pattern, None)]:
                        polynomial(c, kind, pattern_, flags, witness)
        except Unsupported as e:
            why = f"outside the supported subset: {e}"
            tb = traceback.extract_tb(e.__traceback__)
            site = [f for f in tb if "/httplint/" in f.filename]
            if site:
                why += f" (at {site[-1].filename.split('/httplint/')[-1]}:{site[-1].lineno} {site[-1].name})"
        except Budget as e:
            why = f"budget used up: {e}"
        except RecursionError:
            why = "recursion limit of the verifier"
        except (PathEnd, Infeasible) as e:  # pragma: no cover
            why = f"engine: {type(e).__name__}"
        except Exception as e:  # an error of the contract module itself (e.g. a renamed function)
            why = f"contract cannot be applied: {type(e).__name__}: {e}"
            site = traceback.extract_tb(e.__traceback__)
            if site:
                why += f" (at {os.path.basename(site[-1].filename)}:{site[-1].lineno})"
        finally:
            core.CTX = None
        missing = [x for x in self.covers if not c.reached.get(x)]
        n = len(c.obligations)
        disc = sum(1 for o in c.obligations if o["result"] == "discharged")
        if why is None and missing and not c.failures:
            why = f"precondition coverage not reached: {missing}"
        if why is None and n == 0:
            why = "no obligation was generated"
        if why is None and c.undecided:
            why = f"solver undecided: {c.undecided[0]}"
        status = "refuted" if c.failures else ("undecided" if why else "proved")
        by = {}
        cl = {}
        for o in c.obligations:
            by[o["by"]] = by.get(o["by"], 0) + 1
            k = cl.setdefault(o["clause"], [0, 0])
            k[0] += 1
            k[1] += o["result"] == "discharged"
        return {
            "contract": self.name,
            "status": status,
            "why": why,
            "functions": sorted(set(self.functions) | c.functions - c.stubbed),
            "stubbed": sorted(c.stubbed),
            "obligations": n,
            "discharged": disc,
            "by": by,
            "clauses": {k: {"generated": v[0], "discharged": v[1]} for k, v in cl.items()},
            "failures": c.failures[:6],
            "undecided": c.undecided[:6],
            "paths": c.paths,
            "cut_loops": sorted(getattr(c, "cut_loops", set())),
            "assumed": sorted(c.assumed),
            "reached": c.reached,
            "queries": c.queries,
            "solver_secs": round(c.solver_secs, 3),
            "secs": round(time.time() - t0, 3),
            "note": self.note,
        }


def polynomial(c, kind, pattern, flags, witness=None):
    """an obligation: the steps of matching a pattern are polynomial in the length of the text.

    A failure needs a text that the real `re` takes long to match."""
    w = witness("") if witness else None
    short = w["field"] if w else repr(pattern if len(pattern) < 60 else pattern[:40] + ".." + hashlib.sha1(str(pattern).encode()).hexdigest()[:6])
    clause = f"matching {short} takes polynomially many steps"
    why, x = None, None
    try:
        x = redos.exponential(pattern, flags)
    except redos.Refused as e:
        why = str(e)
    rec = {"clause": clause, "path": 0, "by": "automaton product", "result": "discharged"}
    c.obligations.append(rec)
    if x is not None:
        text = redos.slow(pattern, flags, kind, *x[:2])
        why = "the pattern may be matched in exponentially many ways, and no text is found for which it is"
    if why is None and x is None:
        return True
    if x is not None and text is not None:
        rec["result"] = "failed"
        c.failures.append({"clause": clause, "info": f"re.{kind} does not return within 1.5 s on {text!r}", "pc": [], "model": None,
                           "witness": witness(text) if witness else None, "approx": False})
        return False
    rec["result"] = "unknown"
    c.undecided.append({"clause": clause, "why": why})
    return False


def raises(ctx, fn, *a, **k):
    """('ok', result) or ('raise', exception) for Python-level exceptions of the code."""
    from .runtime import call

    try:
        return "ok", call(fn, *a, **k)
    except Exception as e:
        engine_error(e)
        return "raise", e


def engine_error(e):
    """an error inside the verifier is no behaviour of the code"""
    import linecache

    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    here = last and (os.path.dirname(os.path.abspath(__file__)) in last.filename or "/z3/" in last.filename)
    if here and not linecache.getline(last.filename, last.lineno).strip().startswith("raise ") or (
            type(e).__name__ in ("Z3Exception", "ArgumentError")):
        raise Unsupported(f"error in the verifier: {type(e).__name__}: {_safe(e)} "
                          f"({os.path.basename(last.filename)}:{last.lineno})")
    # a stand-in, or an object the contract put together, lacks something the code now uses
    if isinstance(e, AttributeError) and e.obj is not None:
        t = e.obj if isinstance(e.obj, type) else type(e.obj)
        if t.__module__.split(".")[0] in ("props", "pyvc", "httplint"):
            raise Unsupported(f"no model of {t.__name__}.{e.name}")
    if isinstance(e, TypeError) and re.search(r"\(\) (got an unexpected|got multiple|takes \d|takes from|missing \d)", _safe(e)):
        raise Unsupported(f"no model of a call: {_safe(e)}")


def expect_ok(ctx, what, fn, *a, **k):
    st, v = raises(ctx, fn, *a, **k)
    if st == "raise":
        tb = [f for f in traceback.extract_tb(v.__traceback__) if "/httplint/" in f.filename]
        site = f" at {tb[-1].filename.split('/httplint/')[-1]}:{tb[-1].name}" if tb else ""
        ctx.prove(False, f"{what} does not raise {type(v).__name__}", info=f"{type(v).__name__}: "
                  f"{_safe(v)}{site}")
        raise PathEnd()
    ctx.prove(True, f"{what} does not raise")
    return v


def _safe(v):
    try:
        return str(v)[:300]
    except BaseException:
        return "?"


def load(prop):
    m = importlib.import_module("props." + prop.lower())
    return m.contracts()


def main(argv):
    import argparse
    import multiprocessing as mp

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(8000)
    t0 = time.time()
    try:
        cs = load(a.prop)
    except Exception as e:
        print(json.dumps({"error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-2000:],
                          "contracts": []}))
        return 0
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    out = []
    if a.v or len(cs) == 1:
        for c in cs:
            r = c.run(a.tier)
            out.append(r)
            if a.v:
                show(r)
        if a.v:
            return 0
    else:
        # one process per contract: a crash or a runaway query of one does not lose the others
        def work(i, conn):
            import resource

            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
            try:
                conn.send(cs[i].run(a.tier))
            except BaseException as e:  # pragma: no cover
                conn.send({"contract": cs[i].name, "status": "undecided", "why": f"verifier crashed: {type(e).__name__}: {e}",
                           "functions": cs[i].functions, "obligations": 0, "discharged": 0, "failures": []})
            conn.close()
        todo = list(range(len(cs)))
        live = {}
        res = {}
        mpx = mp.get_context("fork")
        while todo or live:
            while todo and len(live) < a.jobs:
                i = todo.pop(0)
                pc, cc = mpx.Pipe(False)
                p = mpx.Process(target=work, args=(i, cc))
                p.start()
                cc.close()
                live[i] = (p, pc, time.time(), (cs[i].secs if a.tier == "quick" else cs[i].thorough_secs) + 40)
            for i, (p, pc, t, lim) in list(live.items()):
                got = False
                try:
                    if pc.poll(0.02):
                        res[i] = pc.recv()
                        got = True
                except EOFError:
                    got = True
                over = time.time() - t > lim or a.budget and time.time() - t0 > a.budget
                if got or not p.is_alive() and not pc.poll(0) or over:
                    if i not in res:
                        res[i] = {"contract": cs[i].name, "status": "undecided",
                                  "why": "time limit" if over else "verifier process ended",
                                  "functions": cs[i].functions, "obligations": 0, "discharged": 0, "failures": []}
                    if p.is_alive():
                        p.join(0.5)
                        if p.is_alive():
                            p.kill()
                    p.join()
                    del live[i]
            if a.budget and time.time() - t0 > a.budget:
                for i in todo:
                    res[i] = {"contract": cs[i].name, "status": "undecided", "why": "time limit",
                              "functions": cs[i].functions, "obligations": 0, "discharged": 0, "failures": []}
                todo = []
        out = [res[i] for i in range(len(cs))]
    print(json.dumps({"contracts": out, "secs": round(time.time() - t0, 2)}, default=str))
    return 0


def show(r):
    print(f"{r['status'].upper():9} {r['contract']}  {r['discharged']}/{r['obligations']} obl, {r['paths']} paths, "
          f"{r['queries']} queries, {r['secs']} s  {r['why'] or ''}")
    for cl, n in r["clauses"].items():
        print(f"     {n['discharged']}/{n['generated']} {cl}")
    for f in r["failures"][:4]:
        print("   FAILED", f["clause"], "|", f["info"])
        m = f["model"] or {}
        print("      model", dict(list(m.items())[:25]))
        print("      witness", f["witness"])
    if r["cut_loops"]:
        print("     loops cut:", r["cut_loops"])
    print("     functions:", r["functions"], "stubbed:", r["stubbed"], "assumed:", r["assumed"], r["reached"])


if __name__ == "__main__":
    # run as the importable module, so that there is one Ctx
    from pyvc import verify as _v

    sys.exit(_v.main(sys.argv[1:]))
