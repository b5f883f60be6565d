"""Lints messages in a process that has linted nothing before, with another hash seed.

Run as a program: reads a scenario, or a sequence of them, (JSON) per line and writes what it gives (JSON), each in a
process of its own, forked before anything was linted."""
import json
import os
import re
import subprocess
import sys


class Fresh:
    def __init__(self, seed=4242):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], env=env, text=True, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=os.path.dirname(os.path.abspath(__file__)))

    def snapshot(self, sc):
        """None: not to be had"""
        return self.ask({"snapshot": sc})

    def check(self, case, alone):
        return self.ask({"case": case, "alone": alone})

    def ask(self, sc):
        try:
            self.p.stdin.write(json.dumps(sc) + "\n")
            self.p.stdin.flush()
            return json.loads(self.p.stdout.readline() or "null")
        except (OSError, ValueError):
            return None


def forked(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = json.dumps(f())
        except BaseException:
            out = "null"
        with os.fdopen(w, "w") as h:
            h.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as h:
        out = h.read()
    os.waitpid(pid, 0)
    return out or "null"


def main():
    sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
    import scenario
    from oracles import msggen
    import corpus
    import oracles.p19 as P

    corpus.parser_modules()

    def patterns():
        for sc in msggen.directed()[::3]:
            try:
                scenario.run(sc)
            except Exception:
                pass
        out = []
        for t, p, f in list(re._cache):
            if t is str and isinstance(p, str):
                out.append([p, int(f)])
        return out

    for p, f in json.loads(forked(patterns)) or []:
        try:
            re._compile(p, f)
        except Exception:
            pass
    for line in sys.stdin:
        sc = json.loads(line)
        f = (lambda: P.snapshot(scenario.run(sc["snapshot"])[0])) if "snapshot" in sc else (lambda: P.compare(sc["case"], sc["alone"]))
        sys.stdout.write(forked(f) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
