"""Seed inputs, mutation and generation of field values and messages.

Seeds are mined from the current source in /repo on every run: the inputs of
the in-module field tests, and string/number literals in the code.
"""
import ast
import importlib
import os
import random
import re
import sys
import inspect

from scenario import REPO

import httplint.field.parsers as P  # noqa: E402
from httplint.field.finder import HttpFieldFinder  # noqa: E402
from httplint.field import HttpField  # noqa: E402
from httplint.field import deprecated, unnecessary  # noqa: E402

try:
    from httplint.field.tests import FieldTest
except Exception:  # pragma: no cover
    FieldTest = None


def parser_modules():
    d = os.path.join(REPO, "httplint", "field", "parsers")
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            out.append(importlib.import_module("httplint.field.parsers." + f[:-3]))
    return out


def field_classes():
    out = {}
    for m in parser_modules():
        tok = m.__name__.rsplit(".", 1)[1]
        c = getattr(m, tok, None)
        if inspect.isclass(c) and issubclass(c, HttpField):
            out[getattr(c, "canonical_name", tok.replace("_", "-"))] = c
    return out


def literals():
    strs, nums, bytess = set(), set(), set()
    for root, _d, files in os.walk(os.path.join(REPO, "httplint")):
        for f in files:
            if not f.endswith(".py"):
                continue
            try:
                t = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, str) and 0 < len(n.value) <= 40 and "\n" not in n.value:
                        strs.add(n.value)
                    elif isinstance(n.value, bool):
                        pass
                    elif isinstance(n.value, int):
                        nums.add(n.value)
    strs = {s for s in strs if all(ord(c) < 256 for c in s) and "%(" not in s}
    return sorted(strs), sorted(nums)


_seed_cache = None


def seeds():
    """canonical-ish name -> list of header line lists (latin-1 str)"""
    global _seed_cache
    if _seed_cache is not None:
        return _seed_cache
    out = {}
    mods = parser_modules() + [importlib.import_module("httplint.field.cors")]
    for m in mods:
        for _n, c in sorted(vars(m).items()):
            if inspect.isclass(c) and FieldTest is not None and issubclass(c, FieldTest):
                nm = getattr(c, "name", "")
                ins = getattr(c, "inputs", None)
                if nm and ins:
                    lst = out.setdefault(nm.lower(), [])
                    v = [i.decode("latin-1") for i in ins]
                    if v not in lst:
                        lst.append(v)
    _seed_cache = out
    return out


CHARS = list('",;=\\ \t*\'/:?@[](){}<>%&#!~`|^_-.+0123456789aZ') + [
    "\x00", "\x0b", "\x1f", "\x7f", "\x80", "\xa0", "\xb2", "\xe9", "\xff", "\xb5", "\xdf", "\x85", "\x1c"]
FRAGS = [
    '""', '"', "=", "a=b", "a=", "=b", ";", ",", ";;", ",,", "*", "'", "''", "utf-8''%41", "utf-8'en'%e2%82%ac",
    "0", "-1", "1", "00", "1.5", "1e5", "9" * 10, "9" * 19, "9" * 30, "9" * 320, "9" * 4301, "1" + "0" * 400,
    "\xb2", "?0", "?1", ":YQ==:", "@1", '%"a%0a%0a<b>"', "()", "(a b)", "a;b=c", "a;q=1.0", "a;q=x", "none", "null",
    "http://[", "http://a/", "//", "/", "#x", "?x", "http://a:b/", "http://\xff/", "https://x.example:443/", "data:,",
    "Mon, 01 Jan 2024 00:00:00 GMT", "Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT",
    "Sun Nov  6 08:49:37 1994", "Mon, 31 Feb 2020 10:10:10 GMT", "[]", "{}", '{"a":1}', "[1]", "1e999", "NaN", "true",
    "<a>", "<http://[>;rel=x", "text/html", "text/html;charset=utf-8", "*/*", "a/b", "/", "a/", "W/\"a\"", '"a"',
    "bytes", "bytes 0-1/2", "bytes=0-1", "bytes */*", "1.1 a", "<img src=x onerror=alert(1)>", "`<script>`", "`", "```",
]


class Gen:
    def __init__(self, seed, names=None):
        self.r = random.Random(seed)
        self.seeds = seeds()
        self.strs, self.nums = literals()
        self.names = names or sorted({c for c in field_classes()})
        self.extra = (
            sorted(HttpFieldFinder.field_aliases) + sorted(deprecated.field_lookup)[:40]
            + sorted(unnecessary.UNNECESSARY_FIELDS) + ["X-Unknown", "Foo"]
        )
        self.allvals = [v for lst in self.seeds.values() for ls in lst for v in ls]

    def field_name(self):
        r = self.r
        n = r.choice(self.names) if r.random() < 0.9 else r.choice(self.extra)
        x = r.random()
        if x < 0.03:
            n = n.lower()
        elif x < 0.06:
            n = n.upper()
        elif x < 0.08:
            n = n + r.choice([" ", "\t", ":", "\xe9", ""])
        elif x < 0.09:
            n = r.choice(["", " ", "_", "-", "\xe9", "(", "a b", "__init__", "tests"])
        elif x < 0.1:
            n = n.replace("-", "_")
        return n

    def mutate(self, v):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            k = r.random()
            i = r.randint(0, len(v))
            j = min(len(v), i + r.choice([0, 1, 1, 2, 5, 20]))
            if k < 0.25:
                v = v[:i] + v[j:]
            elif k < 0.45:
                v = v[:i] + r.choice(CHARS) + v[j:]
            elif k < 0.65:
                v = v[:i] + r.choice(FRAGS) + v[j:]
            elif k < 0.75:
                v = v[:i] + r.choice(self.strs) + v[j:]
            elif k < 0.82:
                v = v[:j] + v[i:]
            elif k < 0.9:
                # replace a number
                m = list(re.finditer(r"\d+", v))
                if m:
                    q = r.choice(m)
                    v = v[: q.start()] + str(r.choice(self.nums + [0, 1, 2**31, 2**63, 10**19, 10**400])) + v[q.end():]
            elif k < 0.95:
                v = v + r.choice([", ", "; ", ",", ";", " "]) + r.choice(self.allvals)
            else:
                m = list(re.finditer(r"[A-Za-z-]+", v))
                if m:
                    q = r.choice(m)
                    w = r.choice([q.group().upper(), q.group().lower(), r.choice(self.strs)])
                    v = v[: q.start()] + w + v[q.end():]
        return v[:9000]

    def value_lines(self, name):
        r = self.r
        base = self.seeds.get(name.lower())
        if base and r.random() < 0.85:
            lines = list(r.choice(base))
        else:
            lines = [r.choice(FRAGS + self.allvals)]
        if r.random() < 0.75:
            k = r.randrange(len(lines)) if lines else 0
            if lines:
                lines[k] = self.mutate(lines[k])
        if r.random() < 0.12:
            lines.append(self.mutate(r.choice(lines)) if lines else "")
        return lines

    def headers(self, n=None):
        r = self.r
        out = []
        for _ in range(n if n is not None else r.choice([0, 1, 1, 2, 3, 5, 8])):
            name = self.field_name()
            for v in self.value_lines(name):
                out.append([name, v])
        return out

    def body(self):
        import zlib, gzip
        r = self.r
        k = r.random()
        if k < 0.3:
            return []
        data = r.choice([b"", b"x", b"<html></html>", b"{}", b"\xff" * 50, "жук".encode("koi8-r") * 20,
                         "h\u00e9llo \u20ac".encode(), bytes(range(256)), b"%PDF-1.4", b"GIF89a..."])
        if k < 0.5:
            data = gzip.compress(data, mtime=0)
        if k < 0.55:
            data = data[: r.randint(0, len(data))]
        if r.random() < 0.5 or not data:
            return [data.decode("latin-1")]
        i = r.randint(0, len(data))
        return [data[:i].decode("latin-1"), data[i:].decode("latin-1")]

    def uri(self):
        r = self.r
        u = r.choice(["/", "http://example.com/", "http://a/b?c#d", "*", "http://[", "http://a:b/", "", "\xff",
                      "http://" + "a" * 70 + ".com/", "https://x/" + "a" * 8100, "http://\xc3\xa9.com/\xc3\xa9"])
        if r.random() < 0.4:
            u = self.mutate(u)
        return u

    def time(self):
        return self.r.choice([None, None, 0, 1, 1000000000, 1700000000.5, 1700000000, 784111777])

    def request(self):
        r = self.r
        return {
            "kind": "request",
            "topline": [r.choice(["GET", "HEAD", "POST", "OPTIONS", "PUT", "DELETE", "FOO", "", "\xff", "get"]),
                        self.uri(), r.choice(["1.1", "2", "", "\xff"])],
            "headers": self.headers(), "body": self.body() if r.random() < 0.3 else [],
            "trailers": self.headers(1) if r.random() < 0.1 else None,
            "start_time": self.time(), "no_content": r.random() < 0.05,
        }

    def response(self):
        r = self.r
        sc = {
            "kind": "response",
            "topline": [r.choice(["1.1", "1.0", "2", "\xff"]),
                        r.choice(["200", "200", "200", "304", "206", "201", "301", "404", "416", "101", "103", "999", "",
                                  "abc", "-1", "2_0", "\xb2", "+200", "9" * 5000] + [str(r.randint(100, 599))]),
                        r.choice(["OK", None, "", "\xff", "Not Found"])],
            "headers": self.headers(), "body": self.body(),
            "trailers": self.headers(1) if r.random() < 0.15 else None,
            "start_time": self.time(), "no_content": r.random() < 0.05, "is_head": r.random() < 0.05,
            "base_uri": r.choice(["", "http://example.com/foo/bar", "https://a/", "http://["]),
        }
        if r.random() < 0.4:
            sc["request"] = self.request()
        return sc

    def message(self):
        return self.request() if self.r.random() < 0.25 else self.response()
