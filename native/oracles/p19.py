"""P19: linting is deterministic and messages do not affect each other."""
import copy
import json
import scenario
from oracles import msggen
from httplint.i18n import set_locale
import httplint.i18n as I18N

LIMIT = 60


def alike(rng, n):
    """messages about one field, whose values have names in common, or with fields that aren't known"""
    g = msggen.G(rng)
    sc = msggen.message(rng, 1)
    sc["body"] = []
    name = sc["headers"][0][0] if sc["headers"] else "X-A"
    word = rng.choice(["zork", "quux", "a", "x-y"])
    out = []
    for _ in range(n):
        m = copy.deepcopy(sc)
        r = rng.random()
        if r < 0.2:
            m["headers"] = [[rng.choice(["Zork", "Quux", "X-A", "A(b", "C D", "A\u00e9"]), rng.choice(["a", "\u00e9", "a" * 9000])] for _ in range(2)]
        else:
            v = (g.value_lines(name) or [""])[0]
            if r < 0.6:
                parts = rng.choice([[word], [word + "=1"], [word + '="a"'], [word, "b=2"], [word + "=1", word], [word, word]])
                parts = parts + [v] if rng.random() < 0.5 else parts
                v = rng.choice([", ", ", ", "; "]).join(parts)
            m["headers"] = [[name, v]] + m["headers"][1:]
        out.append(m)
    return out


def gen(rng):
    n = rng.choice([2, 2, 3])
    return {"messages": alike(rng, n) if rng.random() < 0.5 else [msggen.message(rng) for _ in range(n)], "order": [rng.randrange(n) for _ in range(12)],
            "locales": [rng.choice(scenario.LOCALES) for _ in range(3)], "render": rng.random() < 0.3}


def freeze(v, d=0):
    if d > 6:
        return "..."
    if isinstance(v, dict):
        return "{" + ", ".join(sorted(f"{freeze(k, d + 1)}: {freeze(x, d + 1)}" for k, x in v.items())) + "}"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(freeze(x, d + 1) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(freeze(x, d + 1) for x in v) + "]"
    return f"{type(v).__name__}:{v!r}" if not hasattr(v, "__dict__") else f"{type(v).__name__}:{v}"


def note(n):
    return (type(n).__name__, n.subject, str(n.category), str(n.level), freeze({k: str(v) for k, v in n.vars.items()}), sorted(note(x) for x in n.subnotes))


def snapshot(lint):
    return {
        "notes": sorted(note(n) for n in lint.notes),
        "headers": freeze(lint.headers.parsed), "trailers": freeze(lint.trailers.parsed), "text": freeze(lint.headers.text),
        "sizes": [lint.headers.size if hasattr(lint.headers, "size") else None, lint.content_length, freeze(lint.content_hash)],
        "decoded": [lint.decoded.length, freeze(lint.decoded.hash)] if hasattr(lint, "decoded") else None,
        "sample": freeze(lint.content_sample), "complete": lint.complete,
        "base": freeze(getattr(lint, "base_uri", None)),
    }


def steps(sc):
    """the same use of the library as scenario.run, one step at a time"""
    rel = None
    if sc.get("request") is not None:
        g = steps(sc["request"])
        for rel in g:
            yield None
    lint = scenario.build(sc, rel)
    yield lint
    if sc.get("headers") is not None:
        lint.process_headers(scenario.hl(sc["headers"]))
        yield lint
    for chunk in sc.get("body", []):
        lint.feed_content(scenario.b(chunk))
        yield lint
    tr = sc.get("trailers")
    lint.finish_content(sc.get("complete", True), scenario.hl(tr) if tr is not None else None)
    yield lint


def render(lint):
    return [(str(n.summary), str(n.detail)) for n in sorted(scenario.all_notes(lint), key=note)]


_fresh = []


def diff(a, b):
    if isinstance(a, list) and isinstance(b, list):
        a = [x for x in a if x not in b]
    return str(a)[:300]


class Odd(Exception):
    pass


def check(case):
    """in processes that have linted nothing else, so that what is found depends on the case only"""
    if not _fresh:
        import fresh

        _fresh.extend([fresh.Fresh(4242), fresh.Fresh(77)])
    alone = [_fresh[1].snapshot(m) for m in case["messages"]]
    return [tuple(x) for x in _fresh[0].check(case, alone) or []]


def compare(case, alone):
    out = []
    ms = case["messages"]
    if not ms:
        return out
    try:
        first = [snapshot(scenario.run(m)[0]) for m in ms]
    except Exception:  # the subject of P01
        return out

    def same(i, got, how):
        for k in first[i]:
            if got[k] != first[i][k]:
                out.append((f"differs:{how}:{k}", f"{k} of message {i} {how}: {str(got[k])[:300]}, first {str(first[i][k])[:300]}"))

    # in a process that has linted nothing else
    for i in range(len(ms)):
        got = alone[i]
        if got is not None:
            mine = json.loads(json.dumps(first[i]))
            for k in mine:
                if got[k] != mine[k]:
                    out.append((f"differs:alone:{k}", f"{k} of message {i} when nothing else was linted before (and hashes differ): "
                                f"{diff(got[k], mine[k])}, else {diff(mine[k], got[k])}"))
    # again, after the others
    for i in reversed(range(len(ms))):
        same(i, snapshot(scenario.run(ms[i])[0]), "linted again")
    # interleaved
    gens = [steps(m) for m in ms]
    last = [None] * len(ms)
    live = list(range(len(ms)))
    for x in (case["order"] or [0]) * 20:
        if not live:
            break
        i = live[x % len(live)]
        try:
            last[i] = next(gens[i])
        except StopIteration:
            live.remove(i)
    for i in live:
        for last[i] in gens[i]:
            pass
    for i, lint in enumerate(last):
        same(i, snapshot(lint), "interleaved")
    # languages
    for i, lint in enumerate(last[:2] if case["render"] else []):
        try:
            base = render(lint)
            for lo in case["locales"]:
                with set_locale(lo):
                    if I18N._locale_var.get() != lo:
                        out.append(("locale:set", f"{lo} was not selected"))
                    render(lint)
                    with set_locale("fr"):
                        render(lint)
                    if I18N._locale_var.get() != lo:
                        out.append(("locale:nested", f"{lo} was not restored"))
                    here = render(lint)
                    try:
                        with set_locale("es"):
                            raise Odd
                    except Odd:
                        pass
                    if render(lint) != here:
                        out.append(("locale:error", f"rendering in {lo} changed after an error in a scope"))
            if render(lint) != base:
                out.append(("locale:leak", "rendering changed after rendering in other languages"))
        except Exception:  # the subject of P02
            continue
        same(i, snapshot(lint), "rendered")
    if I18N._locale_var.get() != "en":
        out.append(("locale:left", f"language {I18N._locale_var.get()} is left selected"))
    return out
