"""Bounded searches on the real code: run by /opt/venv/bin/python, import httplint from /repo.

    python native/harness.py P04 --seed 1 --n 4000 --secs 20 --procs 8 [--witness FILE]
    python native/harness.py --replay FILE

An oracle module (native/oracles/pNN.py) has
    gen(rng)      -> a JSON-able case           directed() -> list of cases
    check(case)   -> list of (key, message), empty when the property held on the case
    trivial(case) -> True for a case that exercises nothing (optional)
    from_witness(w) -> list of cases            (optional)
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "oracles"), os.path.dirname(HERE)]
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True


class CaseTimeout(BaseException):
    pass


def _alarm(*_a):
    raise CaseTimeout()


def load(prop):
    return importlib.import_module("oracles." + prop.lower())


def evaluate(mod, case, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.check(case) or []
    except CaseTimeout:
        return [("no-return", f"did not return within {limit} s")]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.environ.get("VERIF_REPO", "/repo")
        inner = [f for f in tb if f.filename.startswith(repo + "/httplint")]
        if inner:
            f = inner[-1]
            return [(f"raise:{type(e).__name__}:{os.path.relpath(f.filename, repo)}:{f.name}",
                     f"{type(e).__name__}: {str(e)[:200]}")]
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def work(prop, seed, n, secs, limit, k, procs, conn):
    try:
        mod = load(prop)
        rng = random.Random(f"{seed}/{k}")
        t0 = time.time()
        seen, viols, samples = set(), {}, []
        ev = 0
        limit = getattr(mod, "LIMIT", limit)

        def one(case):
            nonlocal ev
            ev += 1
            h = hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=8).digest()
            if not (hasattr(mod, "trivial") and mod.trivial(case)):
                seen.add(h)
            for key, msg in evaluate(mod, case, limit):
                viols.setdefault(key, (key, msg, case))
            if len(samples) < 2 and ev % 37 == 1:
                samples.append(case)

        d = list(mod.directed()) if hasattr(mod, "directed") else []
        for c in d[k::procs]:
            one(c)
            if "no-return" in viols:
                break
        nd = ev
        while ev - nd < n and time.time() - t0 < secs and len(viols) < 25 and "no-return" not in viols:
            one(mod.gen(rng))
        conn.send(dict(ev=ev, seen=list(seen), viols=list(viols.values()), samples=samples, err=None))
    except BaseException as e:
        conn.send(dict(ev=0, seen=[], viols=[], samples=[], err=f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]))
    conn.close()


def shrink_size(case):
    return len(json.dumps(case, default=str))


def minimise(mod, case, key, limit, secs=6.0):
    """Greedy reduction of the lists, strings and dicts in a failing case."""
    t0 = time.time()

    def fails(c):
        if time.time() - t0 > secs:
            return False
        try:
            return any(k == key for k, _ in evaluate(mod, c, min(limit, 2.0) if key != "no-return" else limit))
        except Exception:
            return False

    def paths(x, p=()):
        yield p, x
        if isinstance(x, dict):
            for k in list(x):
                yield from paths(x[k], p + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                yield from paths(v, p + (i,))

    def put(x, p, v):
        x = json.loads(json.dumps(x))
        y = x
        for k in p[:-1]:
            y = y[k]
        if p:
            y[p[-1]] = v
            return x
        return v

    case = json.loads(json.dumps(case))
    if not fails(case):
        return case
    changed = True
    while changed and time.time() - t0 < secs:
        changed = False
        for p, v in list(paths(case)):
            cands = []
            if set(p) & set(getattr(mod, "KEEP", ())):
                continue
            if isinstance(v, list) and v:
                if len(v) > 3:
                    cands += [v[: len(v) // 2], v[len(v) // 2:]]
                cands += [v[:i] + v[i + 1:] for i in range(len(v))]
            elif isinstance(v, str) and len(v) > 1 and getattr(mod, "MIN_STR", False):
                cands += [v[: len(v) // 2], v[len(v) // 2:]] + ([v[:-1], v[1:]] if len(v) < 80 else [])
            for c in cands:
                c2 = put(case, p, c)
                if fails(c2):
                    case = c2
                    changed = True
                    break
            if changed:
                break
    return case


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--n", type=int, default=2000, help="generated cases per process")
    ap.add_argument("--secs", type=float, default=20)
    ap.add_argument("--limit", type=float, default=10)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--witness")
    ap.add_argument("--replay")
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        mod = load(r["property"])
        if r.get("case") is None:
            print("no failing input: see the failed obligation in", a.replay)
            return 0
        v = evaluate(mod, r["case"], getattr(mod, "LIMIT", a.limit))
        for key, msg in v:
            print("FAILS:", key, msg)
        return 1 if v else 0
    mod = load(a.prop)
    out = {"witnesses": []}
    if a.witness:
        # replay of the verifier's counterexamples
        for w in json.load(open(a.witness)):
            cases = mod.from_witness(w) if hasattr(mod, "from_witness") else []
            cases = [cases] if isinstance(cases, dict) else cases
            got = None
            for c in cases:
                try:
                    v = evaluate(mod, c, a.limit)
                except Exception as e:
                    out.setdefault("witness_errors", []).append(f"{type(e).__name__}: {e}")
                    continue
                if v:
                    got = {"key": v[0][0], "msg": v[0][1], "case": c}
                    break
            out["witnesses"].append({"tried": len(cases), "fails": got})
        print(json.dumps(out, default=str))
        return 0
    t0 = time.time()
    jobs = []
    for k in range(a.procs):
        pc, cc = mp.Pipe(False)
        p = mp.Process(target=work, args=(a.prop, a.seed, a.n, a.secs, a.limit, k, a.procs, cc))
        p.start()
        cc.close()
        jobs.append((p, pc))
    ev, seen, viols, samples, errs = 0, set(), {}, [], []
    for p, pc in jobs:
        try:
            r = pc.recv()
        except EOFError:
            errs.append("worker ended without a result")
            p.join()
            continue
        p.join()
        ev += r["ev"]
        seen.update(r["seen"])
        samples += r["samples"]
        if r["err"]:
            errs.append(r["err"])
        for key, msg, case in r["viols"]:
            if key not in viols or shrink_size(case) < shrink_size(viols[key][2]):
                viols[key] = (key, msg, case)
    limit = getattr(mod, "LIMIT", a.limit)
    vs = []
    for key, msg, case in sorted(viols.values(), key=lambda x: x[0]):
        if not a.no_min and len(vs) < 6:
            case = minimise(mod, case, key, limit)
            again = dict(evaluate(mod, case, limit))
            msg = again.get(key, msg)
        vs.append({"key": key, "msg": msg, "case": case})
    out.update(evaluations=ev, distinct=len(seen), violations=vs, samples=samples[:4], errors=errs,
               secs=round(time.time() - t0, 2))
    print(json.dumps(out, default=str))
    return 0


if __name__ == "__main__":
    sys.exit(main())
