"""Regular languages: the set of texts a Python pattern accepts, decided by automata.

A pattern is translated from the parse tree Python's own `re` builds for it (re._parser) to an NFA and
then to the canonical minimal DFA, over an alphabet of U+0000..U+00FF (all a field value decoded from the
wire can hold) and a few code points beyond (the ones `re` folds onto ASCII letters, and one standing for
all others).  Two patterns are then equal exactly when their canonical DFAs are.  Not handled (and
refused): backreferences, look-around, anchors other than ^ at the front and $ at the end.
"""
import hashlib
import re
import re._constants as K
import re._parser as P
import _sre

EXTRA = [0x130, 0x131, 0x17F, 0x212A, 0x4E2D]
CHARS = [chr(i) for i in range(256)] + [chr(i) for i in EXTRA]
N = len(CHARS)
INDEX = {c: i for i, c in enumerate(CHARS)}
ALL = (1 << N) - 1
OTHER = N - 1
SYMBOL = {1 << i: c for i, c in enumerate(CHARS) if i != OTHER}
WIRE = [i for i in range(256) if i not in (10, 13)]  # what a field value may hold


class Refused(Exception):
    pass


def mask_of(pred):
    m = 0
    for i, c in enumerate(CHARS):
        if pred(c):
            m |= 1 << i
    return m


CATS = {}


def category(cat, flags):
    key = (cat, bool(flags & re.A))
    if key not in CATS:
        pat = {K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_SPACE: r"\s",
               K.CATEGORY_NOT_SPACE: r"\S", K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W"}.get(cat)
        if pat is None:
            raise Refused(str(cat))
        r = re.compile(pat, flags & re.A)
        CATS[key] = mask_of(lambda c: r.fullmatch(c) is not None)
    return CATS[key]


FOLD = {}


def folded(mask, flags):
    """the characters that match a case-insensitive set with these members"""
    if not flags & re.I:
        return mask
    asc = bool(flags & re.A)
    if asc not in FOLD:
        low = _sre.ascii_tolower if asc else _sre.unicode_tolower
        rows = []
        f = re.I | (re.A if asc else 0)
        groups = {}
        for i, c in enumerate(CHARS):
            groups.setdefault(low(ord(c)), []).append(i)
        for i, c in enumerate(CHARS):
            r = re.compile(re.escape(c), f)
            m = 1 << i
            for j in set(groups[low(ord(c))]) | {INDEX[chr(x)] for x in EXTRA} | {INDEX[y] for y in "ikIKsS"}:
                if r.fullmatch(CHARS[j]):
                    m |= 1 << j
            rows.append(m)
        FOLD[asc] = rows
    out = 0
    rows = FOLD[asc]
    m = mask
    while m:
        b = m & -m
        out |= rows[b.bit_length() - 1]
        m ^= b
    return out


class NFA:
    def __init__(self):
        self.eps = []
        self.edges = []

    def state(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    # every builder takes a start state and returns the end state
    def chars(self, s, mask):
        t = self.state()
        if mask:
            self.edges[s].append((mask, t))
        return t

    def alt(self, s, builders):
        t = self.state()
        for b in builders:
            a = self.state()
            self.eps[s].append(a)
            self.eps[b(a)].append(t)
        return t

    def repeat(self, s, build, lo, hi):
        for _ in range(lo):
            s = build(s)
        if hi is None:
            a = self.state()
            self.eps[s].append(a)
            e = build(a)
            self.eps[e].append(a)
            t = self.state()
            self.eps[a].append(t)
            return t
        t = self.state()
        self.eps[s].append(t)
        for _ in range(hi - lo):
            s = build(s)
            self.eps[s].append(t)
        return t


def literal(c, flags):
    if c not in INDEX:
        return folded(1 << OTHER, flags) if len(c) == 1 else 0
    return folded(1 << INDEX[c], flags)


def set_mask(items, flags):
    m, neg = 0, False
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            m |= 1 << INDEX.get(chr(av), OTHER)
        elif op is K.RANGE:
            for i, c in enumerate(CHARS):
                if av[0] <= ord(c) <= av[1]:
                    m |= 1 << i
        elif op is K.CATEGORY:
            m |= category(av, flags)
        else:
            raise Refused(str(op))
    m = folded(m, flags)
    return ALL & ~m if neg else m


def build(nfa, s, tree, flags, last=True):
    """NFA for a parse tree; returns (end state, whether the end of the text was asserted)"""
    ended = False
    items = list(tree)
    for n, (op, av) in enumerate(items):
        if ended and not (op is K.AT and av in (K.AT_END, K.AT_END_STRING)):
            raise Refused("something after $")
        tail = last and n == len(items) - 1
        if op is K.LITERAL:
            s = nfa.chars(s, literal(chr(av), flags))
        elif op is K.NOT_LITERAL:
            s = nfa.chars(s, ALL & ~literal(chr(av), flags))
        elif op is K.ANY:
            s = nfa.chars(s, ALL if flags & re.S else ALL & ~(1 << 10))
        elif op is K.IN:
            s = nfa.chars(s, set_mask(av, flags))
        elif op is K.BRANCH:
            if not tail or 'AT_END' not in repr(av[1]):
                s = nfa.alt(s, [lambda a, b=b: build(nfa, a, b, flags, False)[0] for b in av[1]])
                continue
            out = nfa.state()
            for b in av[1]:
                a = nfa.state()
                nfa.eps[s].append(a)
                e, over = build(nfa, a, b, flags, True)
                nfa.eps[e].append(nfa.over if over else out)
            s = out
        elif op is K.SUBPATTERN:
            _, add, sub, p = av
            s, e = build(nfa, s, p, (flags | add) & ~sub, tail)
            ended = ended or e
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            s = nfa.repeat(s, lambda a: build(nfa, a, p, flags, False)[0], lo, None if hi is K.MAXREPEAT else hi)
        elif op is K.AT and av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and n == 0 and s == 0:
            continue
        elif op is K.AT and av in (K.AT_END, K.AT_END_STRING) and last:
            if flags & re.M:
                raise Refused("multi-line")
            if av is K.AT_END and not ended:
                t = nfa.state()
                nfa.eps[s].append(t)
                nfa.edges[s].append((1 << 10, t))
                s = t
            ended = True
        else:
            raise Refused(str(op))
    return s, ended


class DFA:
    """Canonical minimal complete DFA: classes[i] is the class of symbol i, delta[q][class], accepting."""

    def __init__(self, classes, delta, acc):
        self.classes, self.delta, self.acc = classes, delta, acc

    @property
    def key(self):
        if not hasattr(self, "_key"):
            self._key = hashlib.sha1(repr((self.classes, self.delta, sorted(self.acc))).encode()).hexdigest()[:16]
        return self._key

    def shortest(self):
        """the length of the shortest text of the language, None if there is none"""
        if not hasattr(self, "_shortest"):
            seen, now, n = {0}, {0}, 0
            while now and not now & set(self.acc):
                now = {t for q in now for t in self.delta[q]} - seen
                seen |= now
                n += 1
            self._shortest = n if now else None
        return self._shortest

    def only(self):
        """the one text of the language, if there is just one"""
        if not hasattr(self, "_only"):
            self._only, q, out, live = None, 0, "", _coreach(self, set(self.acc), ALL)
            while q in live and len(out) <= len(self.delta):
                nxt = [(m, self.delta[q][c]) for c, m in _edges(self).items() if self.delta[q][c] in live]
                if q in self.acc and not nxt:
                    self._only = out
                if q in self.acc or len(nxt) != 1 or nxt[0][0] & (nxt[0][0] - 1) or nxt[0][0] not in SYMBOL:
                    break
                out, q = out + SYMBOL[nxt[0][0]], nxt[0][1]
        return self._only

    def accepts(self, s):
        q = 0
        for c in s:
            q = self.delta[q][self.classes[INDEX.get(c, OTHER)]]
        return q in self.acc


def partition(masks):
    parts = [ALL]
    for m in masks:
        nxt = []
        for p in parts:
            for x in (p & m, p & ~m):
                if x:
                    nxt.append(x)
        parts = nxt
    return parts


def determinise(nfa, start, end):
    masks = sorted({m for es in nfa.edges for m, _ in es})
    parts = partition(masks)
    reps = [(p & -p) for p in parts]
    n = len(nfa.eps)
    clo = [None] * n

    def closure(q):
        if clo[q] is None:
            seen, todo = {q}, [q]
            while todo:
                for t in nfa.eps[todo.pop()]:
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
            clo[q] = frozenset(x for x in seen if nfa.edges[x] or x == end)
        return clo[q]

    # mask -> the classes it covers
    cover = {m: [i for i, r in enumerate(reps) if r & m] for m in masks}
    step = [None] * n

    def moves(q):
        if step[q] is None:
            d = {}
            for m, t in nfa.edges[q]:
                for i in cover[m]:
                    d.setdefault(i, set()).update(closure(t))
            step[q] = d
        return step[q]

    first = closure(start)
    ids, order, delta = {first: 0}, [first], []
    k = 0
    while k < len(order):
        cur = order[k]
        k += 1
        tgt = [set() for _ in parts]
        for q in cur:
            for i, ts in moves(q).items():
                tgt[i] |= ts
        row = []
        for t in tgt:
            f = frozenset(t)
            if f not in ids:
                ids[f] = len(order)
                order.append(f)
                if len(order) > 60000:
                    raise Refused("too many states")
            row.append(ids[f])
        delta.append(row)
    acc = {i for i, st in enumerate(order) if end in st}
    classes = [None] * N
    for i, p in enumerate(parts):
        for j in range(N):
            if p >> j & 1:
                classes[j] = i
    return minimise(classes, delta, acc)


def minimise(classes, delta, acc):
    n, k = len(delta), len(delta[0]) if delta else 0
    block = [1 if q in acc else 0 for q in range(n)]
    count = len(set(block))
    while True:
        sig, new = {}, []
        for q in range(n):
            s = (block[q],) + tuple(block[t] for t in delta[q])
            new.append(sig.setdefault(s, len(sig)))
        block = new
        if len(sig) == count:
            break
        count = len(sig)
    # merge symbol classes with the same column, then number everything canonically
    rep = {}
    for q in range(n):
        rep.setdefault(block[q], q)
    col = {}
    for c in range(k):
        col.setdefault(tuple(block[delta[rep[b]][c]] for b in sorted(rep)), []).append(c)
    group = {c: g for g, cs in enumerate(col.values()) for c in cs}
    some = {g: cs[0] for g, cs in enumerate(col.values())}
    sym, names = [], {}
    for j in range(N):
        sym.append(names.setdefault(group[classes[j]], len(names)))
    back = {v: some[g] for g, v in names.items()}
    start = block[0]
    num, order, out, i = {start: 0}, [start], [], 0
    while i < len(order):
        row = []
        for c in range(len(back)):
            t = block[delta[rep[order[i]]][back[c]]]
            if t not in num:
                num[t] = len(order)
                order.append(t)
            row.append(num[t])
        out.append(tuple(row))
        i += 1
    return DFA(tuple(sym), tuple(out), {num[b] for b in order if rep[b] in acc or block_acc(b, block, acc)})


def block_acc(b, block, acc):
    return any(block[q] == b for q in acc)


CACHE = {}


def lang(pattern, flags=0, kind="match"):
    """the DFA of the texts s for which re.<kind>(pattern, s, flags) succeeds"""
    key = (pattern, int(flags), kind)
    if key in CACHE:
        return CACHE[key]
    tree = P.parse(pattern, int(flags))
    fl = tree.state.flags
    if fl & re.L:
        raise Refused("locale")
    nfa = NFA()
    s0 = nfa.state()
    nfa.over = nfa.state()  # nothing may follow
    if kind == "search":
        items = list(tree)
        if not (items and items[0][0] is K.AT):
            a = nfa.state()
            nfa.edges[s0].append((ALL, s0))
            nfa.eps[s0].append(a)
            raise Refused("search")
    e, ended = build(nfa, s0, tree, fl)
    if kind == "fullmatch":
        if ended or any(nfa.over in x for x in nfa.eps):
            raise Refused("fullmatch with $")
    elif not ended:
        t = nfa.state()
        nfa.eps[e].append(t)
        nfa.edges[t].append((ALL, t))
        e = t
    nfa.eps[e].append(nfa.over)
    CACHE[key] = d = determinise(nfa, s0, nfa.over)
    return d


def from_nfa(fill):
    nfa = NFA()
    s = nfa.state()
    return determinise(nfa, s, fill(nfa, s))


def compare(a, b, wire=False):
    """None if equal (on texts up to U+00FF, if wire), else (shortest text they differ on, whether a accepts it)"""
    if a.key == b.key:
        return None
    return search(a, b, lambda x, y: x != y, wire)


def search(a, b, want, wire=False):
    """shortest (text, in a) with want(in a, in b), or None"""
    pairs = {}
    for j in (WIRE if wire else range(N)):
        pairs.setdefault((a.classes[j], b.classes[j]), j)
    # prefer printable representatives
    for j in list(range(33, 127)):
        pairs[(a.classes[j], b.classes[j])] = j
    todo, seen, i = [(0, 0, None, None)], {(0, 0)}, 0
    while i < len(todo):
        p, q, back, _ = todo[i]
        if want(p in a.acc, q in b.acc):
            out, n = [], i
            while todo[n][2] is not None:
                out.append(CHARS[todo[n][3]])
                n = todo[n][2]
            return "".join(reversed(out)), p in a.acc
        for (ca, cb), j in pairs.items():
            t = (a.delta[p][ca], b.delta[q][cb])
            if t not in seen:
                seen.add(t)
                todo.append((t[0], t[1], i, j))
        i += 1
    return None


def subset(a, b):
    """None if every text a accepts is accepted by b, else a counterexample"""
    r = search(a, b, lambda x, y: x and not y)
    return r[0] if r else None


def meet(a, b):
    """a text both accept, or None"""
    r = search(a, b, lambda x, y: x and y)
    return r[0] if r else None


def groups(pattern, flags=0):
    """{number and name of a group: (it takes part in every match, the language of its texts or None)}"""
    tree = P.parse(pattern, int(flags))
    fl = tree.state.flags
    found = {}

    def walk(sub, flags, must):
        for op, av in sub:
            if op is K.SUBPATTERN:
                g, add, rem, p = av
                f = (flags | add) & ~rem
                if g is not None:
                    try:
                        nfa = NFA()
                        s = nfa.state()
                        d = determinise(nfa, s, build(nfa, s, p, f, False)[0])
                    except Refused:
                        d = None
                    found[g] = (must and g not in found, d)
                walk(p, f, must)
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                walk(av[2], flags, must and av[0] > 0)
            elif op is K.BRANCH:
                for b in av[1]:
                    walk(b, flags, False)
            elif op in (K.ASSERT, K.ASSERT_NOT):
                walk(av[1], flags, False)
            elif op is K.ATOMIC_GROUP:
                walk(av, flags, must)

    walk(tree, fl, True)
    for name, g in tree.state.groupdict.items():
        found[name] = found[g]
    return found


# languages derived from a language
DERIVED = {}


def _edges(d):
    """mask of the symbols of each class"""
    if not hasattr(d, "_masks"):
        m = {}
        for j, c in enumerate(d.classes):
            m[c] = m.get(c, 0) | 1 << j
        d._masks = m
    return d._masks


def _reach(d, starts, mask):
    """the states reached from starts by symbols in mask"""
    cs = [c for c, m in _edges(d).items() if m & mask]
    seen, todo = set(starts), list(starts)
    while todo:
        q = todo.pop()
        for c in cs:
            t = d.delta[q][c]
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


def _coreach(d, targets, mask):
    """the states from which symbols in mask lead to targets"""
    cs = [c for c, m in _edges(d).items() if m & mask]
    back = {}
    for q, row in enumerate(d.delta):
        for c in cs:
            back.setdefault(row[c], []).append(q)
    seen, todo = set(targets), list(targets)
    while todo:
        for q in back.get(todo.pop(), ()):
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return seen


def _part(d, starts, accs, mask=None):
    mask = ALL if mask is None else mask
    nfa = NFA()
    s = nfa.state()
    for row in d.delta:
        nfa.state()
    end = nfa.state()
    for q, row in enumerate(d.delta):
        for c, m in _edges(d).items():
            if m & mask:
                nfa.edges[q + 1].append((m & mask, row[c] + 1))
    nfa.eps[s] = [q + 1 for q in starts]
    for q in accs:
        nfa.eps[q + 1].append(end)
    return determinise(nfa, s, end)


def cached(f):
    def g(d, *a):
        k = (f.__name__, d.key) + a
        if k not in DERIVED:
            DERIVED[k] = f(d, *a)
        return DERIVED[k]

    return g


@cached
def before(d, ch):
    """what precedes the first ch in a text of d"""
    j = INDEX[ch]
    live = _coreach(d, d.acc, ALL)
    accs = {q for q, row in enumerate(d.delta) if row[d.classes[j]] in live}
    return _part(d, [0], accs, ALL & ~(1 << j))


@cached
def after(d, ch):
    """what follows the first ch in a text of d"""
    j = INDEX[ch]
    starts = {d.delta[q][d.classes[j]] for q in _reach(d, [0], ALL & ~(1 << j))}
    return _part(d, starts, d.acc)


@cached
def stripped(d):
    """the texts of d without the white space around them"""
    ws = mask_of(str.isspace)
    inner = _part(d, _reach(d, [0], ws), _coreach(d, d.acc, ws))
    return intersect(inner, lang(r"(?s)(?:\S(?:.*\S)?)?\Z"))


@cached
def inner(d):
    """the texts of d without their first and last character"""
    starts = {t for t in d.delta[0]}
    accs = {q for q, row in enumerate(d.delta) if any(t in d.acc for t in row)}
    return _part(d, starts, accs)


@cached
def first(d):
    """the first characters of the texts of d that are not empty"""
    live = _coreach(d, d.acc, ALL)
    m = 0
    for c, mask in _edges(d).items():
        if d.delta[0][c] in live:
            m |= mask
    return from_nfa(lambda n, s: n.chars(s, m))


@cached
def last(d):
    """the last characters of the texts of d that are not empty"""
    m = 0
    for q in _reach(d, [0], ALL):
        for c, mask in _edges(d).items():
            if d.delta[q][c] in d.acc:
                m |= mask
    return from_nfa(lambda n, s: n.chars(s, m))


def intersect(a, b):
    pairs, classes = {}, []
    for j in range(N):
        classes.append(pairs.setdefault((a.classes[j], b.classes[j]), len(pairs)))
    ids, order, delta, k = {(0, 0): 0}, [(0, 0)], [], 0
    while k < len(order):
        p, q = order[k]
        k += 1
        row = []
        for ca, cb in pairs:
            t = (a.delta[p][ca], b.delta[q][cb])
            if t not in ids:
                ids[t] = len(order)
                order.append(t)
            row.append(ids[t])
        delta.append(row)
    return minimise(classes, delta, {i for i, (p, q) in enumerate(order) if p in a.acc and q in b.acc})


WIRED = {}


def wire(d):
    """the texts of d that a field value may hold"""
    if d.key not in WIRED:
        # product with the automaton of the wire alphabet: every other symbol leads to a dead state
        dead = len(d.delta)
        masks = {}
        classes, cols = [], []
        for j in range(N):
            k = (d.classes[j], j in WIRESET)
            if k not in masks:
                masks[k] = len(cols)
                cols.append(k)
            classes.append(masks[k])
        delta = [[d.delta[q][c] if ok else dead for c, ok in cols] for q in range(len(d.delta))] + [[dead] * len(cols)]
        WIRED[d.key] = minimise(classes, delta, set(d.acc))
    return WIRED[d.key]


WIRESET = set(WIRE)
