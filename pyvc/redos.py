"""Does matching a pattern take a number of steps that is polynomial in the length of the text?

`re` tries the ways a text can be read one after another, so it takes a number of steps that is exponential in
the length of the text only if the pattern's automaton has exponentially many runs on some texts. That is so
exactly when some state can return to itself by two different runs over the same text (Weber & Seidl, 1991: EDA),
which is decided here on the product of the automaton with itself. All runs count, also those that lead nowhere.

Assertions are taken to hold, and large bounded repetitions to be unbounded: both only add runs, so "polynomial" is
certain, and `exponential` gives a text to try.
"""
import os
import re
import re._constants as C
import re._parser as sre
import signal
import time

import networkx as nx

DOMAIN = range(0, 0x180)
FULL = 16  # repetitions up to this many are spelled out


class Refused(Exception):
    pass


_CATEGORY = {
    C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
    C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W",
}


class _Build:
    def __init__(self):
        self.eps, self.ch, self.approx = [], [], False
        self.sets = {}

    def new(self):
        self.eps.append([])
        self.ch.append(None)
        return len(self.eps) - 1

    def chars(self, op, av, flags):
        key = (op, str(av), flags & re.I, flags & re.S)
        if key not in self.sets:
            self.sets[key] = self._chars(op, av, flags)
        return self.sets[key]

    def _chars(self, op, av, flags):
        def fold(r):
            if not flags & re.I:
                return r
            out = set(r)
            for x in r:
                for y in (chr(x).lower(), chr(x).upper()):
                    if len(y) == 1 and ord(y) in DOMAIN:
                        out.add(ord(y))
            return out

        def one(op, av):
            if op is C.LITERAL:
                return fold({av}) & set(DOMAIN)
            if op is C.NOT_LITERAL:
                return set(DOMAIN) - fold({av})
            if op is C.ANY:
                return set(DOMAIN) - (set() if flags & re.S else {10})
            if op is C.RANGE:
                return fold({x for x in DOMAIN if av[0] <= x <= av[1]})
            if op is C.CATEGORY:
                p = re.compile(_CATEGORY[av], flags & re.A)
                return {x for x in DOMAIN if p.match(chr(x))}
            if op is C.IN:
                neg = any(o is C.NEGATE for o, _ in av)
                r = set().union(*[one(o, a) for o, a in av if o is not C.NEGATE])
                return set(DOMAIN) - r if neg else r
            raise Refused(str(op))

        return frozenset(one(op, av))

    def seq(self, items, flags, s):
        for op, av in items:
            s = self.item(op, av, flags, s)
        return s

    def item(self, op, av, flags, s):
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY, C.RANGE):
            a, b = self.new(), self.new()
            self.eps[s].append(a)
            self.ch[a] = (self.chars(op, av, flags), b)
            return b
        if op is C.SUBPATTERN:
            _, add, drop, p = av
            return self.seq(p, (flags | add) & ~drop, s)
        if op is C.ATOMIC_GROUP:
            return self.seq(av, flags, s)
        if op is C.BRANCH:
            e = self.new()
            for p in av[1]:
                a = self.new()
                self.eps[s].append(a)
                self.eps[self.seq(p, flags, a)].append(e)
            return e
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            inf = hi is C.MAXREPEAT
            if lo > FULL:
                self.approx, lo, inf = True, FULL, True
            elif not inf and hi - lo > FULL:
                self.approx, inf = True, True
            for _ in range(lo):
                s = self.seq(p, flags, s)
            e = self.new()
            if inf:
                h, a = self.new(), self.new()
                self.eps[s].append(h)
                self.eps[h].append(a)
                self.eps[self.seq(p, flags, a)].append(h)
                self.eps[h].append(e)
                return e
            for _ in range(hi - lo):
                self.eps[s].append(e)
                a = self.new()
                self.eps[s].append(a)
                s = self.seq(p, flags, a)
            self.eps[s].append(e)
            return e
        if op is C.AT:
            return s
        if op in (C.ASSERT, C.ASSERT_NOT):
            self.approx = True
            inner = self.new()  # its own runs count too
            self.eps[s].append(inner)
            self.seq(av[1], flags, inner)
            return s
        raise Refused(str(op))

    def reach(self, i):
        """the characters' states reachable from i without reading, and whether in more ways than one"""
        count, work = {}, [0]

        def go(x, path):
            work[0] += 1
            if work[0] > 200_000:
                raise Refused("too many ways through the pattern")
            if self.ch[x]:
                count[x] = min(2, count.get(x, 0) + 1)
            for y in self.eps[x]:
                if y not in path:
                    go(y, path | {y})

        go(i, frozenset([i]))
        return count


def munch(pattern, flags):
    """X, when the pattern's form is X+(?=Y) or (X+)(?=Y)"""
    p = list(sre.parse(pattern, flags))
    if len(p) != 2 or p[1][0] is not C.ASSERT or p[1][1][0] != 1:
        return None
    op, av = p[0]
    while op is C.SUBPATTERN and len(av[3]) == 1:
        op, av = list(av[3])[0]
    if op is not C.MAX_REPEAT or av[0] != 1 or av[1] is not C.MAXREPEAT:
        return None
    return av[2]


def exponential(pattern, flags=0):
    """None, or (prefix, pump, approximate): texts prefix + pump * n have exponentially many runs"""
    if isinstance(pattern, bytes):
        pattern = pattern.decode("latin-1")
    flags = int(flags)
    tree = sre.parse(pattern, flags)
    form = munch(pattern, flags)
    if form and _stops_for_good(re.compile(pattern, flags)):
        return _exponential(form, tree.state.flags)
    return _exponential(tree, tree.state.flags)


def _stops_for_good(compiled):
    """X+(?=Y): whatever character follows, X takes it or Y matches there, so X+ never gives back what it took"""
    return all(compiled.match("a" + chr(c) + f) for c in DOMAIN for f in ("", "\x00", "a", " ", ",", '"', ";")) and compiled.match("a")


def _exponential(tree, flags):
    b = _Build()
    start = b.new()
    b.seq(tree, flags, start)
    states = [i for i in range(len(b.ch)) if b.ch[i]]
    step = {c: b.reach(b.ch[c][1]) for c in states}
    first = b.reach(start)
    graph = nx.DiGraph()
    graph.add_nodes_from(states)
    for c in states:
        for d in step[c]:
            graph.add_edge(c, d)
    where = {}
    for k, part in enumerate(nx.strongly_connected_components(graph)):
        for x in part:
            where[x] = k
    char = {c: b.ch[c][0] for c in states}

    def text(path):
        return "".join(_nice(char[x] & char[y]) for x, y in path)

    def prefix(q):
        best = None
        for f in first:
            try:
                p = nx.shortest_path(graph, f, q)
            except nx.NetworkXNoPath:
                continue
            if best is None or len(p) < len(best):
                best = p
        return None if best is None else text([(x, x) for x in best[:-1]])

    for c in states:
        for d, n in step[c].items():
            if n > 1 and where[c] == where[d]:
                pre = prefix(d)
                if pre is not None:
                    return pre, text([(x, x) for x in nx.shortest_path(graph, d, c)]), b.approx
    parts = {}
    for c in states:
        parts.setdefault(where[c], []).append(c)
    for k, part in parts.items():
        if len(part) < 2:
            continue
        inside = {c: [d for d in step[c] if where[d] == k] for c in part}
        product = nx.DiGraph()
        todo = [(c, c) for c in part]
        seen = set(todo)
        edges = 0
        meets = {}
        while todo:
            x, y = todo.pop()
            for d1 in inside[x]:
                for d2 in inside[y]:
                    key = (d1, d2)
                    if key not in meets:
                        meets[key] = not char[d1].isdisjoint(char[d2])
                    if meets[key]:
                        product.add_edge((x, y), key)
                        if key not in seen:
                            seen.add(key)
                            todo.append(key)
                        edges += 1
                    if len(seen) > 40_000 or edges > 2_000_000:
                        raise Refused("too large")
        for scc in nx.strongly_connected_components(product):
            same = [q for q in scc if q[0] == q[1]]
            other = [q for q in scc if q[0] != q[1]]
            if same and other:
                sub = product.subgraph(scc)
                pre = prefix(same[0][0])
                if pre is None:
                    continue
                there = nx.shortest_path(sub, same[0], other[0])
                back = nx.shortest_path(sub, other[0], same[0])
                return pre, text(there[:-1] + back[:-1]), b.approx
    return None


def _nice(chars):
    for x in "a0 -":
        if ord(x) in chars:
            return x
    return chr(min(chars, key=lambda x: (not 32 < x < 127, x)))


def slow(pattern, flags, kind, prefix, pump, secs=1.5):
    """a text made of prefix and pumps that takes longer than secs to match, in a process of its own; or None"""
    compiled = re.compile(pattern, flags)
    for n in (12, 16, 20, 26, 40):
        for end in ("\x01", "", "!", '"', ",", "\u00e9"):
            text = prefix + pump * n + end
            arg = text.encode("latin-1") if isinstance(pattern, bytes) else text
            pid = os.fork()
            if not pid:
                try:
                    getattr(compiled, kind)(arg)
                finally:
                    os._exit(0)
            t = time.time()
            while time.time() - t < secs and os.waitpid(pid, os.WNOHANG) == (0, 0):
                time.sleep(0.001)
            if time.time() - t >= secs:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return text
    return None
