"""Lazily computed models of the current source, shared by the rules of one run."""
import functools
from engine.terms import *
from . import facts
from .judge import Judge, Json, alpha, diff, sh

PARSER = "beancount_parser_lima"
STD = ("std", "core", "alloc", "serde", "serde_json", "serde_core", "tracing", "tracing_core")


def crate_of(path):
    p = path.lstrip("<&")
    while p.startswith(("mut ", "dyn ")):
        p = p[4:]
    return p.split("::")[0].strip()


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []       # {"key", "what", "where"}
        self.undecided = []
        self.counts = {}
        self.samples = []
        self.explain = ""

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violate(self, key, what, where=None):
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"key": key, "what": what, "where": where})

    def undecide(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def sample(self, s):
        if len(self.samples) < 60:
            self.samples.append(s)

    def floor(self, k, n, what):
        """fewer instances than confirmed by hand: the anchor is gone"""
        if self.counts.get(k, 0) < n:
            raise facts.CannotDecide("%s: %d %s found, expected at least %d" % (self.pid, self.counts.get(k, 0), what, n))


def where(site):
    if not site:
        return None
    return {"function": site[0], "file": site[1], "line": site[2] if len(site) > 2 else None}


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier

    @functools.cached_property
    def prog(self):
        return facts.program("lib")

    @functools.cached_property
    def S(self):
        from .server import Server
        return Server(opaque=("api::booking::book",))

    @functools.cached_property
    def B(self):
        from .booking import Booking
        return Booking(self.prog)

    @functools.cached_property
    def W(self):
        from .wire import Wire
        return Wire(self.prog)

    @functools.cached_property
    def J(self):
        return Json(self.W)

    @functools.cached_property
    def judge(self):
        names = {}
        for c in self.S.I.calls:
            names[c["name"]] = crate_of(c["path"])
        local = {b["path"].split("::")[0] for b in self.prog.bodies.values() if not b["path"].startswith("<")}
        ext = {n for n, k in names.items() if k not in STD and k not in local}
        ext |= {"Path::to_string_lossy", "Spanned::span", "Spanned::item", "from_utf8_lossy"}
        return Judge(lambda n: n in ext)

    # ---- answers -------------------------------------------------------------------------------
    def response(self, a, f=lambda t: t):
        """the term whose serialisation an answer writes, if it writes exactly one"""
        xs = []
        for w in a.writes:
            for y in subterms(f(w.data[-1])):
                if y.op == "call" and y.a[0].startswith("serde_json::to_"):
                    xs.append(y.a[1])
        return xs[0] if len(set(xs)) == 1 else None

    def answers(self, **kw):
        """[(answer, residual condition, JSON of the response)] for a kind of request"""
        out = []
        for a, pc, f in self.S.assume(**kw):
            x = self.response(a, f)
            out.append((a, pc, self.J(x) if x is not None else None, f))
        return out

    def site_of(self, t):
        """where a value of the type of t is built"""
        for x in [t] + list(t.kids):
            if is_adt(x):
                s = self.S.I.made.get((x.a[0], x.a[1]))
                if s:
                    return sorted(s, key=str)[0]
        return None

    def compare(self, r, label, act, exp, judge=None, skip=None, site=None):
        """compare a computed value with the expected one, entering differences in the result"""
        judge = judge or self.judge
        for d in diff(act, exp):
            if skip and skip(d):
                continue
            p = ".".join(map(str, d.path))
            if judge.verdict(d) == "differs":
                vs = pcsummary(d.pc)
                r.violate("%s:%s%s" % (label, p, (":" + vs) if vs else ""),
                          "%s: member %s%s is %s where %s is expected" % (label, p or "(whole)", (" (when %s)" % vs) if vs else "", sh(d.act), sh(d.exp)),
                          where(site) if site else None)
            else:
                r.undecide("%s: %s is computed in a way this analysis cannot relate to the expected value: %s" % (label, p, sh(d.act)))


def pcsummary(pc):
    """readable branch labels of a path condition"""
    out = []
    for s, l in sorted(forced(pc).items(), key=lambda x: x[0].size) if pc is not TRUE else []:
        if s.op == "discr" and s.a[0] not in (OPT, RES):
            out.append(str(l))
        elif s.op == "discr":
            nm = s.a[1].a[0] if s.a[1].op == "call" else s.a[1].a[1] if s.a[1].op == "fld" else "?"
            out.append("%s %s" % (nm, l))
    return ", ".join(out[-4:])
