"""P06: freshness and stale notes."""
from .cachelib import SP, execute, gen as _gen, names, from_witness, KEEP  # noqa: F401


def gen(rng):
    c = _gen(rng)
    if rng.random() < 0.4:
        # coincidences: lifetime equal to age or one away
        a = rng.choice([5, 10, 60])
        d = rng.choice([-1, 0, 1])
        c["age"] = str(a)
        c["cc"] = [x for x in c["cc"] if x[0].lower() not in ("max-age", "s-maxage", "no-store")]
        c["cc"].append([rng.choice(["max-age", "s-maxage"]), str(a + d)])
        if rng.random() < 0.4:
            c["cc"].append([rng.choice(["max-age", "s-maxage"]), str(a + rng.choice([-1, 0, 1]))])
        c["date"] = rng.choice([None, c["date"]])
        if c["req"]:
            c["req"]["time"] = rng.choice([None, c["req"]["time"]])
    return c


def check(c):
    lint, req, v = execute(c)
    got_f, got_s = names(lint, SP.FRESH_NOTES), names(lint, SP.STALE_NOTES)
    if not SP.storable(v)[3]:
        return [("unstorable", f"freshness notes {got_f + got_s} on an unstorable response")] if got_f + got_s else []
    a = SP.age(v)
    p, s, ex = SP.lifetimes(v)
    verdict, ps, ss, go = SP.freshness(v, a, p, s, ex)
    out = []
    if got_f != [verdict]:
        out.append(("verdict", f"freshness notes {got_f}, expected [{verdict!r}] (age {a}, lifetimes {p}/{s})"))
    elif ps is not None:
        n = [x for x in lint.notes if type(x).__name__ == verdict][0]
        if (n.vars["private_status"], n.vars["shared_status"]) != (ps, ss):
            out.append(("labels", f"labelled {n.vars['private_status']}/{n.vars['shared_status']}, expected {ps}/{ss}"))
    want = SP.stale(v, a, p, s, ex) if go else []
    if got_s != want:
        out.append(("stale", f"stale notes {got_s}, expected {want} (age {a}, lifetimes {p}/{s})"))
    return out
