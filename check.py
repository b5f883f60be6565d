#!/usr/bin/env python3
"""Decides one property of /repo: python3 check.py P04 [--tier quick|thorough]

1. contracts: pyvc runs the real functions of /repo symbolically and discharges every obligation
   of the property's contracts (props/pNN.py) with z3;
2. replay: counterexamples of failed obligations are turned into inputs and run on the real code;
3. bounded search: native/oracles/pNN.py, generated inputs on the real public interface, compared
   with the same specification (labelled bounded; never counted as proved).

exit 0: held on everything explored; exit 1: VIOLATION line(s).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
VENV = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=HERE)

TRUSTED = [
    "PyVC itself (pyvc/*.py: the mechanical instrumentation, symbolic values, loop rule and path exploration)",
    "z3 (python3-vt's z3-solver)",
    "CPython executing the instrumented code; float arithmetic is treated as real arithmetic",
]


def conf(prop):
    p = os.path.join(HERE, "props", prop.lower() + ".json")
    d = {"n": 3000, "secs": 20, "tn": 200000, "tsecs": 240}
    if os.path.exists(p):
        d.update(json.load(open(p)))
    return d


def run(cmd, timeout, out):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out["rc"], out["err"] = p.returncode, p.stderr.decode("utf-8", "replace")[-2000:]
        lines = p.stdout.decode("utf-8", "replace").strip().splitlines()
        out["res"] = json.loads(lines[-1]) if lines else None
    except subprocess.TimeoutExpired:
        out["rc"], out["err"], out["res"] = -1, "time limit", None
    except ValueError as e:
        out["res"] = None
        out["err"] = f"{e} {out.get('err')}"
    out["secs"] = round(time.time() - t, 2)


def known(prop):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known:"):
                parts = line.split(None, 3)
                if len(parts) == 4 and parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3].strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--no-contracts", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    cf = conf(prop)
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    C, N = {}, {}
    ths = []
    budget = 560 if tier == "quick" else 3000
    ccmd = [VT, "-m", "pyvc.verify", prop, "--tier", tier, "--budget", str(budget - 30)]
    n, secs = (cf["n"], cf["secs"]) if tier == "quick" else (cf["tn"], cf["tsecs"])
    ncmd = [VENV, os.path.join("native", "harness.py"), prop, "--seed", str(a.seed), "--n", str(n), "--secs",
            str(secs), "--procs", "8"]
    if os.path.exists(os.path.join(HERE, "props", prop.lower() + ".py")) and not a.no_contracts:
        ths.append(threading.Thread(target=run, args=(ccmd, budget, C)))
    if not a.no_native:
        ths.append(threading.Thread(target=run, args=(ncmd, secs + 200, N)))
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    cs = ((C.get("res") or {}).get("contracts")) or []
    cerr = (C.get("res") or {}).get("error") if C else None
    if C and not cs and not cerr:
        cerr = "contract run gave no result: " + str(C.get("err"))[-400:]
    nat = N.get("res") or {}
    nerr = list(nat.get("errors") or [])
    if N and not N.get("res"):
        nerr.append("bounded search gave no result: " + str(N.get("err"))[-400:])

    # --- violations
    kn = known(prop)
    hits = {}
    viol = []  # (title, replay dict)
    for v in nat.get("violations", []):
        if v["key"] in kn:
            hits[v["key"]] = kn[v["key"]]
            continue
        viol.append((f"{v['key']}: {v['msg']}", {"by": "bounded search on the real code", **v}, True))
    failures = [(c, f) for c in cs for f in c.get("failures", [])]
    if failures:
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as tf:
            json.dump([f.get("witness") for _, f in failures], tf, default=str)
        R = {}
        run([VENV, os.path.join("native", "harness.py"), prop, "--witness", tf.name], 200, R)
        os.unlink(tf.name)
        ws = (R.get("res") or {}).get("witnesses", [])
        for i, (c, f) in enumerate(failures):
            w = ws[i]["fails"] if i < len(ws) else None
            rec = {"by": "failed obligation", "contract": c["contract"], "obligation": f["clause"], "info": f["info"],
                   "model": f["model"], "path_condition": f["pc"], "witness": f["witness"]}
            if w and w["key"] in kn:
                hits[w["key"]] = kn[w["key"]]
                continue
            if w:
                viol.append((f"{c['contract']}: obligation '{f['clause']}' fails; replayed: {w['msg']}",
                             dict(rec, **w), True))
            else:
                viol.append((f"{c['contract']}: obligation '{f['clause']}' fails ({f['info']})", rec, False))
    lines = []
    real = [v for v in viol if v[2]]
    proofonly = [v for v in viol if not v[2]]
    seen = set()
    k = 0
    for title, rec, concrete in (real[:6] if real else proofonly[:4]):
        if title in seen:
            continue
        seen.add(title)
        k += 1
        path = os.path.join(rdir, f"{prop}-{k}.json")
        rec = dict(rec, property=prop, title=title,
                   replay=f"{VENV} native/harness.py --replay {path}" if concrete else None)
        if real and proofonly:
            rec["failed_obligations"] = [t for t, _, _ in proofonly[:10]]
        with open(path, "w") as fo:
            json.dump(rec, fo, indent=1, default=str)
        print(f"  {title[:600]}")
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if concrete else " no-failing-input-found"))

    # --- evidence
    proved = [c for c in cs if c["status"] == "proved"]
    und = [c for c in cs if c["status"] == "undecided"]
    obl = sum(c["obligations"] for c in cs)
    dis = sum(c["discharged"] for c in cs)
    assumed = sorted({x for c in cs for x in c.get("assumed", [])})
    by = {}
    for c in cs:
        for b, m in (c.get("by") or {}).items():
            by[b] = by.get(b, 0) + m
    all_proved = bool(cs) and len(proved) == len(cs)
    level = cf.get("level", "proof" if all_proved else "other")
    if level == "proof" and not all_proved:
        level = "other"
    bounded = {"evaluations": nat.get("evaluations", 0), "distinct_nontrivial": nat.get("distinct", 0),
               "rule": cf.get("rule", "seeded generator and directed cases of native/oracles/%s.py, real code compared with the "
                              "specification; non-trivial unless the oracle's trivial() says so" % prop.lower()),
               "samples": nat.get("samples", [])[:3], "secs": N.get("secs")}
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": " ".join(ccmd),
        "trusted_base": TRUSTED + cf.get("trusted", []) + assumed,
        "functions_under_contract": sorted({f for c in proved for f in c["functions"]}),
        "contracts": [{k2: c.get(k2) for k2 in ("contract", "status", "why", "obligations", "discharged", "by", "paths",
                                               "solver_secs", "secs", "cut_loops", "stubbed", "clauses", "reached", "note")}
                      for c in cs],
        "by_backend": by, "solver_secs": round(sum(c.get("solver_secs", 0) for c in cs), 2),
        "undecided_this_run": [f"{c['contract']}: {c['why']}" for c in und] + ([cerr] if cerr else []),
        "bounded": bounded,
    }
    cov.update({k2: v for k2, v in bounded.items() if k2 in ("evaluations", "distinct_nontrivial", "rule", "samples")})
    for k2 in ("extra",):
        for c in cs:
            if c.get(k2):
                cov.setdefault(k2, {})[c["contract"]] = c[k2]
    if level == "other":
        cov["explanation"] = cf.get("explanation") or (
            f"{len(proved)} of {len(cs)} contracts fully discharged on this run; the rest of the property is covered by the "
            "bounded search only" if cs else "bounded search only")
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": cf.get("assumptions", []), "violations": len(lines), "wall_s": round(time.time() - t0, 2)}
    if nerr:
        ev["coverage"]["search_errors"] = nerr[:3]
    text = json.dumps(ev, indent=1, default=str)
    for keep in (60, 10, 0):  # a contract with very many clauses lists those that are left, and some of the others
        if len(text) < 400_000:
            break
        for c in cov["contracts"]:
            every = c.get("clauses") or {}
            if len(every) > keep:
                left = {k2: v for k2, v in every.items() if v.get("generated") != v.get("discharged")}
                some = dict(list(every.items())[:keep])
                c["clauses"] = dict(list({**some, **left}.items())[:keep + 40])
                c["clauses_in_all"] = max(len(every), c.get("clauses_in_all", 0))
        text = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fo:
        fo.write(text)

    print(f"{prop} {tier}: {len(proved)}/{len(cs)} contracts proved, {dis}/{obl} obligations discharged "
          f"({C.get('secs', 0)} s); bounded search: {nat.get('evaluations', 0)} cases ({N.get('secs', 0)} s)")
    for c in und:
        print(f"  undecided: {c['contract']}: {c['why']}")
    for e in ([cerr] if cerr else []) + nerr[:2]:
        print("  error:", e)
    for key, what in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if not proved and not nat.get("evaluations"):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
