"""Arbitrary complete messages for the whole-linter oracles (P01, P02, P03, P19)."""
import corpus

_G = None


def G(rng):
    global _G
    if _G is None:
        _G = corpus.Gen(0)
    _G.r = rng
    return _G


def message(rng, focus=0.7):
    """Often about one field, so that every field is reached quickly"""
    g = G(rng)
    if rng.random() > focus:
        return g.message()
    sc = g.request() if rng.random() < 0.3 else g.response()
    name = g.field_name()
    sc["headers"] = [[name, v] for _ in range(rng.choice([1, 1, 1, 2])) for v in g.value_lines(name)]
    if rng.random() < 0.3:
        sc["headers"] += g.headers(1)
    if rng.random() < 0.7:
        sc["body"] = []
    if sc.get("request") and rng.random() < 0.5:
        sc["request"]["headers"] = sc["request"]["headers"][:2]
    return sc


def directed():
    """every value of the field tests, in both directions"""
    out = []
    for name, ls in sorted(corpus.seeds().items()):
        for lines in ls:
            h = [[name, v] for v in lines]
            out.append({"kind": "response", "topline": ["1.1", "200", "OK"], "headers": h, "body": [], "trailers": None,
                        "start_time": 784111777, "base_uri": "http://example.com/foo/bar"})
            out.append({"kind": "request", "topline": ["GET", "http://example.com/foo/bar", "1.1"], "headers": h, "body": [],
                        "trailers": None, "start_time": 784111777})
    return out
