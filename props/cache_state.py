"""Pre-states of ResponseCacheChecker and the view of them the specification uses."""
from pyvc.core import SBool, SOpt, s_if, ctx, is_sym, new_bool, new_int, new_real, new_str, s_not, mknum
import z3
from pyvc.containers import LazyDict, PList, PSet, SList, Maker, PDict
from pyvc.ghost import NS, GhostNotes, TextList, conc, optional

DELTA = {"max-age", "s-maxage", "stale-while-revalidate", "stale-if-error", "min-fresh", "max-stale"}


class CCDict(LazyDict):
    pass


class CCList(PList):
    """The parsed Cache-Control value: a list of (directive, value); dict() of it is `d`."""

    def __init__(self, d):
        list.__init__(self)
        self.d = d
        self.sym = _CCSym(d)

    def as_dict(self):
        return self.d


class _CCSym(SList):
    def __init__(self, d):
        super().__init__("cc", maker=Maker("cc", {("tuple", "str", "int"), ("tuple", "str", "str"),
                                                   ("tuple", "str", "none")}))
        self.d = d


class VarySet(PSet):
    def __init__(self, star):
        PSet.__init__(self)
        self.star = star

    def is_symbolic(self):
        return True

    def scontains(self, x):
        if x == "*":
            return self.star
        return SBool(z3.Const(f"vary.has[{x}]", z3.BoolSort()))


def cc_value(k):
    if k in DELTA:
        return new_int(f"cc[{k}]")
    return None if k in ("no-store", "must-revalidate", "public") else new_str(f"cc[{k}]")


def opt_int(nm):
    return SBool(z3.Const(nm + ".present", z3.BoolSort())), mknum(z3.Const(nm, z3.IntSort()))


class State:
    """One arbitrary response (with or without a request), as the cache checker sees it."""

    def __init__(self, small=False):
        c = ctx()
        self.text = TextList("resp_text")
        self.cc = CCDict("cc", cc_value)
        self.star = new_bool("vary.star")
        self.vals = {}

        class Parsed(LazyDict):
            # invariant of parsed fields: absent, None (invalid) or a value of the field's type
            def __init__(s):
                LazyDict.__init__(s, "parsed", lambda k: new_str("parsed." + k))
                s.raw = {}

            def rawval(s, k):
                if k not in s.raw:
                    if k == "age":
                        s.raw[k] = new_int("age", 0)
                    elif k in ("date", "expires", "last-modified"):
                        s.raw[k] = new_int(k)
                    elif k == "etag":
                        s.raw[k] = (new_bool("etag.weak"), new_str("etag.tag"))
                return s.raw.get(k)

            def has(s, k):
                # an absent list field is the same as an empty one (the default the code uses)
                if k in ("vary", "cache-control"):
                    return True
                return LazyDict.has(s, k)

            def value(s, k):
                if k == "vary":
                    return VarySet(self.star)
                if k == "cache-control":
                    return CCList(self.cc)
                r = s.rawval(k)
                if r is None:
                    return LazyDict.value(s, k)
                return SOpt(z3.Const(k + ".invalid", z3.BoolSort()), r)

            def get(s, k, d=None):
                if k in ("vary", "cache-control"):
                    return s.value(k)
                r = s.rawval(k)
                if r is None:
                    return LazyDict.get(s, k, d)
                p, i = s.has(k).e, z3.Const(k + ".invalid", z3.BoolSort())
                if d is None:
                    return SOpt(z3.Or(z3.Not(p), i), r)
                if isinstance(d, int):
                    return SOpt(z3.And(p, i), s_if(SBool(p), r, d))
                return LazyDict.get(s, k, d)

        self.parsed = Parsed()
        self.status = optional("status", new_int("status"))
        t = new_real("resp_time")
        c.assume(t >= 0)
        self.time = optional("time", t)
        self.request = None
        if bool(new_bool("has_request")):
            self.req_text = TextList("req_text")
            t = new_real("req_time")
            c.assume(t >= 0)
            self.req_time = optional("req_time", t)
            self.method = optional("method", new_str("method"))
            self.request = NS(method=self.method, start_time=self.req_time, notes=GhostNotes("request"),
                              headers=NS(text=self.req_text, parsed=LazyDict("reqparsed", lambda k: new_str(k))))
        self.response = NS(request=self.request, notes=GhostNotes("response"), start_time=self.time,
                           headers=NS(text=self.text, parsed=self.parsed), status_code=self.status,
                           status_code_str=None, is_head_response=False)
        c.witness = self.witness

    # --- the specification's view
    def view(self):
        st = self

        class Req:
            method = st.method if st.request is not None else None
            time = st.req_time if st.request is not None else None

            def text(self, n):
                return st.req_text.has(n)

        class V:
            star = st.star
            req = Req() if st.request is not None else None
            status, time = st.status, st.time
            age = st.parsed.get("age")
            date = st.parsed.get("date")
            expires = st.parsed.get("expires")
            lm = st.parsed.get("last-modified")
            etag = st.parsed.get("etag")

            def text(self, n):
                return st.text.has(n)

            def cc(self, n):
                return st.cc.has(n)

            def ccval(self, n):
                return st.cc.value(n)

        return V()

    def witness(self, model):
        """a case for the native oracle"""
        w = {"star": conc(model, self.star), "status": conc(model, self.status),
             "time": conc(model, self.time), "cc": {}, "text": {}, "parsed": {}}
        for k, b in self.cc.present.items():
            if conc(model, b):
                w["cc"][k] = conc(model, self.cc.vals.get(k))
        for n in ("date", "expires", "last-modified", "authorization"):
            for lst, key in ((self.text, "text"),) + (((self.req_text, "reqtext"),) if self.request is not None else ()):
                try:
                    w.setdefault(key, {})[n] = conc(model, lst.has(n))
                except BaseException:
                    pass
        for k, b in self.parsed.present.items():
            if conc(model, b) is True and k in self.parsed.raw:
                w["parsed"][k] = conc(model, self.parsed.value(k))
        if self.request is not None:
            w["request"] = {"method": conc(model, self.method), "time": conc(model, self.req_time)}
        return w

