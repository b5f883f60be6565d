"""tools/seed.py FILE.py ...  builds /verif/seeded/<id>/ from a seed description and confirms it in a scratch copy.

A description is Python: ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO = python source
(run with cwd at the tree under test; `import` finds that tree first)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8", LC_ALL="C.UTF-8")
SH = """#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=$PWD
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""

def sh(cmd, cwd, env=None, t=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env or ENV, capture_output=True, text=True, timeout=t)

def tests(d):
    e = dict(ENV, PYTHONPATH=f"{d}:{d}/test", PYTEST_ADDOPTS="-p no:cacheprovider")
    r = sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -x --maxfail=500 -n 8 2>/dev/null || {PY} -m pytest -q -p no:cacheprovider --continue-on-collection-errors -rfE", d, e)
    fails = set(re.findall(r"^(?:FAILED|ERROR) (\S+)", r.stdout, re.M))
    m = re.findall(r"(\d+) passed", r.stdout)
    for s in ("test/test_fields.py test/http-fields.xml", "test/test_notes.py", "test/test_syntax.py"):
        if sh(f"{PY} {s}", d, e).returncode:
            fails.add(s)
    return fails, int(m[-1]) if m else 0

base = None
def main(fs):
    global base
    for f in fs:
        g = {}
        exec(compile(open(f).read(), f, "exec"), g)
        d = tempfile.mkdtemp(prefix="/tmp/seed.")
        try:
            sh(f"cp -a /repo/. {d}/", "/")
            if base is None:
                base = tests(d)
            ok = True
            for fn, old, new in g["EDITS"]:
                p = os.path.join(d, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(g["ID"], fn, "old text occurs", s.count(old), "times:", old[:60]); ok = False; break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            patch = sh("git diff", d).stdout
            basec = sh("git rev-list --max-parents=0 HEAD | tail -1", "/repo").stdout.strip()
            for ln in patch.splitlines():
                if ln.startswith("+++ b/"):
                    orig = sh(f"git show {basec}:{ln[6:]}", "/repo").stdout.splitlines()
                elif ln.startswith("-") and not ln.startswith("---") and ln[1:] not in orig:
                    print("   WARNING: line not in the original repository:", ln)
            out = os.path.join(V, "seeded", g["ID"])
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(patch)
            open(out + "/demo.py", "w").write(g["DEMO"].lstrip("\n"))
            open(out + "/demo.sh", "w").write(SH)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
            a = sh(f"bash {out}/demo.sh", "/repo")
            b = sh(f"bash {out}/demo.sh", d)
            t = tests(d)
            good = a.returncode == 0 and b.returncode != 0 and t == base
            print(g["ID"], g["PROP"], "OK" if good else "BAD", "clean", a.returncode, "patched", b.returncode, "tests", t[1], sorted(t[0] - base[0]))
            if not good:
                print(a.stdout[-500:], a.stderr[-800:], "| patched:", b.stdout[-300:], b.stderr[-300:])
                if "--keep" not in sys.argv:
                    shutil.rmtree(out)
        finally:
            shutil.rmtree(d)
main([x for x in sys.argv[1:] if not x.startswith("--")])
