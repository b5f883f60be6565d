"""Regular grammars given as ABNF (grammar.abnf), compiled to automata by pyvc.relang."""
import os
import re as _re

from pyvc import relang as R

TOK = _re.compile(r'\s*(?:(?P<str>(?:%s)?"[^"]*")|(?P<num>%[xd][0-9A-Fa-f]+(?:[-.][0-9A-Fa-f]+)*)|'
                  r'(?P<name>[A-Za-z][A-Za-z0-9-]*)|(?P<rep>[0-9]*\*[0-9]*|[0-9]+)|(?P<op>[()\[\]/#]))')


def load():
    rules, name = {}, None
    with open(os.path.join(os.path.dirname(__file__), "grammar.abnf")) as f:
        for line in f:
            if not line.strip() or line.startswith(";"):
                continue
            n, _, body = line.partition(" = ")
            rules[n.strip()] = body.strip()
    return rules


RULES = load()


class Parser:
    def __init__(self, text):
        self.toks, i = [], 0
        while i < len(text.rstrip()):
            m = TOK.match(text, i)
            if not m or m.end() == i:
                raise ValueError(f"ABNF: {text[i:i + 30]!r}")
            self.toks.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def alternation(self):
        alts = [self.concatenation()]
        while self.peek() == ("op", "/"):
            self.next()
            alts.append(self.concatenation())
        return ("alt", alts) if len(alts) > 1 else alts[0]

    def concatenation(self):
        out = []
        while self.peek()[0] is not None and self.peek() not in (("op", "/"), ("op", ")"), ("op", "]")):
            out.append(self.repetition())
        return ("cat", out)

    def repetition(self):
        kind, t = self.peek()
        if kind == "rep":
            self.next()
            if self.peek() == ("op", "#"):
                self.next()
                return ("list", int(t), self.element())
            if "*" in t:
                lo, hi = t.split("*")
                return ("rep", int(lo or 0), int(hi) if hi else None, self.element())
            return ("rep", int(t), int(t), self.element())
        if (kind, t) == ("op", "#"):
            self.next()
            return ("list", 0, self.element())
        return self.element()

    def element(self):
        kind, t = self.next()
        if kind == "op" and t in "([":
            a = self.alternation()
            self.next()
            return a if t == "(" else ("rep", 0, 1, a)
        if kind == "str":
            return ("str", t[3:-1], False) if t.startswith("%s") else ("str", t[1:-1], True)
        if kind == "num":
            base = 16 if t[1] == "x" else 10
            if "-" in t:
                a, b = t[2:].split("-")
                return ("range", int(a, base), int(b, base))
            return ("cat", [("range", int(x, base), int(x, base)) for x in t[2:].split(".")])
        if kind == "name":
            return ("rule", t)
        raise ValueError(f"ABNF: {t!r}")


TREES = {}


def tree(rule):
    if rule not in TREES:
        TREES[rule] = Parser(RULES[rule]).alternation()
    return TREES[rule]


def fill(nfa, s, t):
    op = t[0]
    if op == "cat":
        for x in t[1]:
            s = fill(nfa, s, x)
        return s
    if op == "alt":
        return nfa.alt(s, [lambda a, x=x: fill(nfa, a, x) for x in t[1]])
    if op == "rep":
        return nfa.repeat(s, lambda a: fill(nfa, a, t[3]), t[1], t[2])
    if op == "list":
        # 1#element = element *( OWS "," OWS element ); #element = [ 1#element ]
        one = ("cat", [t[2], ("rep", 0, None, ("cat", [("rule", "OWS"), ("str", ",", True), ("rule", "OWS"), t[2]]))])
        return fill(nfa, s, one if t[1] else ("rep", 0, 1, one))
    if op == "str":
        for c in t[1]:
            s = nfa.chars(s, R.mask_of(lambda x: x == c or t[2] and c.isalpha() and x in (c.lower(), c.upper())))
        return s
    if op == "range":
        return nfa.chars(s, R.mask_of(lambda x: t[1] <= ord(x) <= t[2] and ord(x) < 256))
    if op == "rule":
        return fill(nfa, s, tree(t[1]))
    if op == "pat":
        raise ValueError
    raise ValueError(op)


DFAS = {}


def element(rule):
    """the tree of the element of a rule that is a list"""
    t = tree(rule)
    while t[0] == "cat" and len(t[1]) == 1:
        t = t[1][0]
    if t[0] != "list":
        raise ValueError(f"{rule} is no list")
    return t[2]


SPACE = ("space",)


def lang(rule, surround=False):
    """DFA of a rule (its name or its tree); surround: with any white space around it"""
    key = (rule if isinstance(rule, str) else repr(rule), surround)
    if key not in DFAS:
        t = tree(rule) if isinstance(rule, str) else rule

        def build(nfa, s):
            ws = R.category(R.K.CATEGORY_SPACE, 0)
            sp = lambda a: nfa.chars(a, ws)
            if surround:
                s = nfa.repeat(s, sp, 0, None)
            s = fill(nfa, s, t)
            if surround:
                s = nfa.repeat(s, sp, 0, None)
            return s

        DFAS[key] = R.from_nfa(build)
    return DFAS[key]


def accepts(rule, text):
    return lang(rule).accepts(text)


def generate(rng, t, budget=30):
    """a random text of the grammar `t` (a rule's name or a tree)"""
    if isinstance(t, str):
        t = tree(t)
    op = t[0]
    if op == "cat":
        return "".join(generate(rng, x, budget) for x in t[1])
    if op == "alt":
        return generate(rng, rng.choice(t[1]), budget)
    if op == "rep":
        lo, hi = t[1], t[2]
        most = lo + 3 if hi is None else hi
        n = rng.choice([lo, most, rng.randint(lo, most), min(lo + 1, most)]) if budget > 0 else lo
        return "".join(generate(rng, t[3], budget - n) for _ in range(n))
    if op == "list":
        n = rng.choice([1, 1, 2, 3])
        return rng.choice([", ", ",", " , "]).join(generate(rng, t[2], budget - n) for _ in range(n))
    if op == "str":
        r = rng.random()
        return t[1] if r < 0.7 or not t[2] else t[1].upper() if r < 0.8 else t[1].lower() if r < 0.9 else t[1].title()
    if op == "range":
        return chr(rng.randint(t[1], t[2]))
    return generate(rng, tree(t[1]), budget - 1)


# the rule that a field's value follows, where it is not the one with the field's name
DATE_FIELDS = ("If-Modified-Since", "If-Unmodified-Since", "Last-Modified", "Date", "Expires")
RENAMED = dict({n: "HTTP-date" for n in DATE_FIELDS},
               **{"Content-Security-Policy-Report-Only": "Content-Security-Policy"})

# rules that are written out in httplint.syntax: module -> names there (with - for _)
COMMON = {
    "rfc5234": ["ALPHA", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "SP", "VCHAR", "WSP"],
    "rfc3986": ["URI", "hier-part", "URI-reference", "absolute-URI", "relative-ref", "relative-part", "scheme",
                "authority", "userinfo", "host", "port", "IP-literal", "IPvFuture", "IPv6address", "h16", "ls32",
                "IPv4address", "dec-octet", "reg-name", "path", "path-abempty", "path-absolute", "path-noscheme",
                "path-rootless", "path-empty", "segment", "segment-nz", "segment-nz-nc", "pchar", "query", "fragment",
                "pct-encoded", "unreserved", "reserved", "gen-delims", "sub-delims"],
    "rfc5646": ["Language-Tag", "langtag", "language", "extlang", "script", "region", "variant", "extension",
                "singleton", "privateuse", "grandfathered", "irregular", "regular", "alphanum"],
    "rfc5322": ["qtext", "qcontent", "ccontent", "atext", "dot-atom-text", "dtext", "domain", "addr-spec", "mailbox"],
    "rfc6838": ["restricted-name", "restricted-name-first", "restricted-name-chars"],
    "rfc5987": ["ext-value", "charset", "mime-charset", "mime-charsetc", "value-chars", "attr-char"],
    "rfc9110": ["OWS", "BWS", "RWS", "obs-text", "tchar", "token", "qdtext", "quoted-pair", "quoted-string",
                "parameter", "parameters", "qvalue", "weight", "media-type", "media-range", "language-range",
                "auth-param", "token68", "challenge", "credentials", "partial-URI", "incl-range", "range-resp",
                "unsatisfied-range", "day-name", "day-name-l", "month", "time-of-day", "GMT", "IMF-fixdate",
                "rfc850-date", "asctime-date", "obs-date", "HTTP-date", "weak", "etagc", "opaque-tag", "entity-tag",
                "expectation", "int-range", "suffix-range", "other-range", "range-spec", "delay-seconds", "product",
                "ctext", "comment", "transfer-parameter", "transfer-coding", "t-codings", "protocol",
                "parameter-name", "parameter-value"],
    "rfc9111": ["cache-directive", "warn-agent"],
    "rfc9112": ["transfer-coding", "transfer-parameter"],
    "rfc8288": ["link-param"],
}


def of_field(name, is_list):
    """the tree that (an element of) the field's value follows, or None"""
    rule = RENAMED.get(name, name)
    if rule not in RULES:
        return None
    if is_list:
        try:
            return element(rule)
        except ValueError:
            pass
    return tree(rule)
