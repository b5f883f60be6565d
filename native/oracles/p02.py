"""P02: every note renders in every language."""
import re
import scenario
import msggen
import oracles.p01 as P1
from httplint.i18n import set_locale, translate

LIMIT = 40


def gen(rng):
    return P1.gen(rng)


directed = P1.directed
NAMED = re.compile(r"%\((\w+)\)")


def check(sc):
    try:
        lint, _ = scenario.run(sc)
    except Exception:  # the subject of P01
        return []
    out = []
    wire = str(sc)
    for lo in scenario.LOCALES:
        with set_locale(lo):
            for n in scenario.all_notes(lint):
                cls = type(n).__name__
                for what in ("summary", "detail"):
                    try:
                        s = getattr(n, what)
                    except Exception as e:
                        out.append((f"render:{cls}:{what}:{type(e).__name__}", f"{what} of {cls} in {lo}: {type(e).__name__}: {str(e)[:200]} {n.vars.keys()}"))
                        continue
                    if not isinstance(s, str):
                        out.append((f"type:{cls}", f"{what} of {cls} in {lo} is {type(s).__name__}"))
                    elif what == "summary" and not s.strip():
                        out.append((f"empty:{cls}", f"empty summary of {cls} in {lo}"))
                    elif "%(" in s and "%(" not in wire:
                        out.append((f"unfilled:{cls}", f"{what} of {cls} in {lo} has a variable left: {s[:200]!r}"))
                    elif "Project-Id-Version" in s or "\ue000" in s and "\ue000" not in wire and "%ee" not in wire:
                        out.append((f"garbage:{cls}", f"{what} of {cls} in {lo}: {s[:200]!r}"))
                try:
                    plain = str(n)
                except Exception as e:
                    out.append((f"render:{cls}:str:{type(e).__name__}", f"str of {cls} in {lo}: {e}"))
                    continue
                for k in set(NAMED.findall(translate(n._summary))):
                    v = str(n.vars.get(k, ""))
                    if v not in plain:
                        out.append((f"missing:{cls}:{k}", f"{k}={v[:80]!r} is not in the summary of {cls} in {lo}: {plain[:200]!r}"))
    return out
