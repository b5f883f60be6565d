"""P03: message data cannot inject markup into note details."""
import ast
import inspect
import json
import os
import re
import sys
from html.parser import HTMLParser
import scenario
import msggen
import corpus
from httplint.field import deprecated
from httplint.note import MarkdownSafe
from httplint.i18n import set_locale, translate
from markdown import Markdown

LIMIT = 30
MARK = "zq"
HOSTILE = [
    "<b>zq</b>", "<script>zq</script>", "\n\n<script>zq</script>\n\n", "\r\r<i>zq</i>", "`<u>zq</u>`", "``<s>zq</s>``", "`zq", "zq`",
    "[zq](http://zq/)", "![zq](zq)", "<http://zq.example/>", "<zq@zq.zq>", "&lt;zqe", "&#x3c;zqe", "&zqe;", "**zq**", "_zq_", "*zq*",
    "\n\n    zq\n\n", "\n# zq\n", "\n\n> zq\n", "\n* zq\n", "\n\n[zq]: http://zq/ 'zq'\n\n[zq]", "\\`<b>zq</b>\\`", "\x0c<b>zq", "\x85<b>zq",
    "`", "\x02", "\x03\x02", '%"%02"', '"`"', "<!-- zq -->", "<?zq?>", "<![CDATA[zq]]>", "<!zq>", '%"%02";zqa="<i>zq</i>"', "`;<b>zq</b>", "`; ` <b>zq</b>; <b>zq</b>",
    "\x02; \x02 <b>zq</b>; <b>zq</b>", "\x0b\x0b<b>zq", "\x1c\x1c<b>zq", "' onzq='", '" onzq="', "zq<", ">zq", "javascript:zq", "\x02wzxhzdk:0\x03zq", "\x02zq\x03", "%(zq)s",
    "%zq", "%szq", '%"%e2%80%a8%0a%0a<b>zq"', '%"%60<b>zq%60"', '%"%ee%80%800%ee%80%81zq"', '%"a%0a%0a<b>zq"', '%"%c2%85<b>zq"',
]
MD = Markdown(output_format="html")


def hostile(rng, s):
    for _ in range(rng.choice([1, 1, 2, 3])):
        h = rng.choice(HOSTILE)
        x = rng.random()
        if x < 0.15:
            s = h
        elif x < 0.5:
            ws = list(re.finditer(r"[A-Za-z0-9-]+", s))
            if ws:
                w = rng.choice(ws)
                s = s[: w.start()] + rng.choice([h, w.group() + h, h + w.group()]) + s[w.end():]
            else:
                s += h
        elif x < 0.65:
            s = s + rng.choice([";", ",", "; ", ", ", " "]) + h
        elif x < 0.75:
            s = s.replace('""', '"%s"' % h.replace("\\", "").replace('"', "")) if '""' in s else f'{s};zqa="{h}"'
        else:
            i = rng.randint(0, len(s))
            s = s[:i] + h + s[i:]
    return s


def spoil(rng, sc):
    for side in (sc, sc.get("request")):
        if not side:
            continue
        for h in side["headers"] + (side.get("trailers") or []):
            if rng.random() < 0.8:
                h[1] = hostile(rng, h[1])
            if rng.random() < 0.05:
                h[0] = hostile(rng, h[0])
        for i in range(3):
            if side["topline"][i] is not None and rng.random() < 0.15:
                side["topline"][i] = hostile(rng, side["topline"][i])
    return sc


def gen(rng):
    sc = spoil(rng, msggen.message(rng))
    sc["locale"] = rng.choice(scenario.LOCALES)
    return sc


CORE = ["`<b>zq</b>`", "<b>zq</b>", '"<b>zq</b>"', "`", '%"%02"', '%"%60<b>zq%60"']
COMPOSING = re.compile(r"MarkdownSafe|markdown_list|code_text|check_sf_params|_make_list|report_only_text")


def composing():
    """fields whose modules compose Markdown, with values and literals of theirs"""
    out = {}
    for name, cls in sorted(corpus.field_classes().items()):
        src = "".join(inspect.getsource(sys.modules[c.__module__]) for c in cls.__mro__ if c.__module__.startswith("httplint.field.parsers"))
        if not COMPOSING.search(src):
            continue
        mod = sys.modules[cls.__module__]
        vals = {ls[0] for ls in corpus.seeds().get(name.lower(), []) if len(ls) == 1 and len(ls[0]) < 200}
        for b in cls.__mro__:
            vals |= {ls[0] for ls in corpus.seeds().get(str(getattr(b, "canonical_name", "")).lower(), []) if len(ls) == 1 and len(ls[0]) < 200}
        known = getattr(mod, "KNOWN_PARAMS", None)
        if isinstance(known, dict):
            vals |= {f"a;{k}={v}" for k in known for v in ("1", "tok", "1.5", '"s"', '%"d"', "?1", ":YQ==:")}
        lits = [n.value for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Constant) and isinstance(n.value, str)
                and re.fullmatch(r"[!-~]{2,30}", n.value) and "%" not in n.value]
        out[name] = (sorted(vals), sorted(set(lits)))
    return out


def words(v):
    return [m.span() for m in re.finditer(r'"[^"]*"|[^\s;,="]+', v)]


def directed():
    out = []

    def add(sc, headers):
        c = dict(sc, headers=headers)
        c["locale"] = "en"
        out.append(c)

    resp = {"kind": "response", "topline": ["1.1", "200", "OK"], "body": [], "trailers": None, "start_time": 784111777,
            "base_uri": "http://example.com/foo/bar"}
    for name, (vals, lits) in composing().items():
        done = set()
        for v in vals:
            for i, j in words(v)[:8]:
                w = v[i:j]
                for h in CORE:
                    plain = h.strip('"')
                    for x in (h, plain + w, w[:-1] + plain + '"' if w[-1] == '"' else w + plain):
                        done.add(v[:i] + x + v[j:])
        for h in ("`<b>zq</b>`", "`"):  # with what the field's code looks for
            for x in lits:
                done |= {f"{h} {x}", f"{h} {x}; {h} {x}", f"{x} {h}", f'a;{x}="{h}"', f'<a:b>;{x}="{h}"', f'<a:b>; rel="{x}{h}"', f"{h}=1; {x}"}
        for v in sorted(done):
            add(resp, [[name, v]])
    for sc in msggen.directed():
        for h in ("`\n\n<b>zq</b>", "&lt;zqe<i>zq</i>"):
            add(sc, [[n, v + " " + h] for n, v in sc["headers"]])
    return out


class Skeleton(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=False)
        self.items = []

    def handle_starttag(self, tag, attrs):
        self.items.append(("tag", tag, tuple(sorted(attrs))))

    def handle_startendtag(self, tag, attrs):
        self.items.append(("tag", tag, tuple(sorted(attrs))))

    def handle_comment(self, data):
        self.items.append(("comment", data))

    def handle_decl(self, data):
        self.items.append(("decl", data))

    def handle_pi(self, data):
        self.items.append(("pi", data))

    def unknown_decl(self, data):
        self.items.append(("decl", data))

    def handle_entityref(self, name):
        if name not in ("amp", "lt", "gt", "quot", "apos"):
            self.items.append(("entity", name))

    def handle_charref(self, name):
        if name not in ("39", "34", "x27", "x22", "38", "60", "62"):
            self.items.append(("entity", name))


def skeleton(html):
    s = Skeleton()
    s.feed(html)
    s.close()
    return s.items


REFS = None


def references():
    """the addresses that the library itself has in its source"""
    global REFS
    if REFS is None:
        REFS = set()
        for d, _s, fs in os.walk(os.path.join(scenario.REPO, "httplint")):
            for f in fs:
                if f.endswith(".py"):
                    for n in ast.walk(ast.parse(open(os.path.join(d, f), encoding="utf-8").read())):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r"https?://\S+\Z", n.value):
                            REFS.add(n.value)
        for c in corpus.field_classes().values():
            REFS |= {r for r in [getattr(c, "reference", None)] if isinstance(r, str)}
        for tab in (deprecated.field_lookup,):
            for v in tab.values():
                REFS |= {x for x in (v if isinstance(v, (tuple, list)) else [v]) if isinstance(x, str)}
    return REFS


def neutral(val, i):
    """the library's own part of a value"""
    if isinstance(val, str) and MARK not in val and val in references():
        return val, ""
    if not isinstance(val, MarkdownSafe):
        return f"Q{i}Q", ""
    m = re.sub(r"`[^`\n\r]*`", "`C`", str(val))
    m = re.sub(r"(\A|\n)    [^\n\r]*", r"\1    C", m)
    return m, re.sub(r"`C`|    C", "", m)


def check(sc):
    try:
        lint, _ = scenario.run(sc)
    except Exception:  # the subject of P01
        return []
    out = []
    wire = json.dumps(sc)
    for lo in sorted({"en", sc.get("locale", "en")}):
        with set_locale(lo):
            for n in scenario.all_notes(lint):
                cls = type(n).__name__
                vs = {}
                for i, (k, v) in enumerate(n.vars.items()):
                    vs[k], rest = neutral(v, i)
                    if MARK in rest or "<" in rest:
                        out.append((f"composed:{cls}:{k}", f"message data outside a code span in {k}: {str(v)[:200]!r}"))
                try:
                    want = MD.reset().convert(translate(n._text) % vs)
                    got = str(n.detail)
                except Exception:  # the subject of P02
                    continue
                spare = skeleton(want)
                for it in skeleton(got):
                    if it in spare:
                        spare.remove(it)
                    elif it[0] == "tag" and it[1] == "code" and not it[2]:
                        pass  # a code span that the reference joined with another
                    else:
                        out.append((f"markup:{cls}", f"{it} in the detail ({lo}): {got[:300]!r}"))
                        break
                if ("&lt;zqe" in got and "<zqe" not in wire) or "&#x3c;zqe" in got or "&zqe;" in got:
                    out.append((f"entity:{cls}", f"an entity of the message in the detail ({lo}): {got[:300]!r}"))
    return out
