"""The booking entry point as a transition system: what one directive does to each part of the state."""
from fractions import Fraction
from engine.terms import *
from engine.interp import Interp
from engine import models            # noqa: F401
from . import facts
from .judge import Judge, alpha, diff, rewrite, sh

ROWCACHE = {}


def last(p):
    return p.split("::")[-1]


class Part:
    """one component of the booking state"""

    def __init__(self, key, lv, init, nx, final):
        self.key, self.lv, self.init, self.nx, self.final = key, lv, init, nx, final


class Booking:
    def __init__(self, prog):
        self.p = prog
        self.I = I = Interp(prog)
        bs = [b for b in prog.bodies.values() if b["kind"] == "mono" and b["path"] == "api::booking::book"]
        if len(bs) != 1:
            raise facts.CannotDecide("the booking entry point api::booking::book is not there")
        self.body = bs[0]
        args = [mk("param", n) for n in ("directives", "options", "x", "y")][:bs[0]["argc"]]
        self.outs = I.entry(bs[0], args)
        self.d = args[0]
        self.options = args[1] if len(args) > 1 else None
        ls = [l for l in I.loops if l.src is self.d]
        if len(ls) != 1:
            ls = [l for l in I.loops if core(l.src) is self.d and any(nx.size > 200 for _, _, nx in l.W.values())]
        if len(ls) != 1:
            raise facts.CannotDecide("no single loop over the directives in booking (%d)" % len(ls))
        self.L = L = ls[0]
        self.site = L.site
        self.src = L.src
        self.e = mk("elem", L.level, self.src)
        self.idx = mk("idx", L.level)
        self.v = fld("", "variant", self.e)
        self.DV = self.adt_path("api::types::raw::", "DirectiveVariant")
        self.BV = self.adt_path("api::types::booked::", "DirectiveVariant")
        self.D = mk("discr", self.DV, self.v)
        self.parts = {}
        self.find_parts()

    def adt_path(self, pre, name):
        c = [p for p in self.p.adts if p.startswith(pre) and last(p) == name]
        if len(c) != 1:
            c = [p for p in self.p.adts if last(p) == name and not p.startswith(("std::", "core::", "alloc::"))]
        if len(c) != 1:
            raise facts.CannotDecide("type %s%s not found" % (pre, name))
        return c[0]

    def A(self, _path, _variant="", **kw):
        """a value of a local type"""
        a = self.p.adts.get(_path)
        if a is None:
            raise facts.CannotDecide("type %s not found" % _path)
        vs = [v for v in a["variants"] if a["kind"] != "enum" or v["name"] == _variant]
        names = tuple(n for n, _ in vs[0]["fields"])
        kw = {k.lstrip("_"): v for k, v in kw.items()}
        return adt(_path, _variant, names, [kw.get(n, mk("any!")) for n in names])

    def element(self, posting=NONE):
        return self.A(self.EIDX, directive=self.idx, posting=posting)

    # ---- roles -------------------------------------------------------------------------------------
    def find_parts(self):
        L = self.L
        parts = {}
        self.extra = []
        self.EIDX = self.adt_path("api::types::", "ElementIdx")
        bdir = self.adt_path("api::types::booked::", "Directive")
        rep = self.adt_path("api::types::", "IndexedReport")
        self.REP, self.BDIR = rep, bdir
        for key, (lvt, init, nx) in L.W.items():
            if key in L.induct:
                continue
            p = Part(key, lvt, init, nx, L.final.get(key))
            apps = self.appended(nx, lvt)
            name = str(lvt.a[2]).split(".")[-1]
            role = None
            if any(x.op == "adt" and x.a[0] == bdir for x in apps):
                role = "booked"
            elif any(x.op == "adt" and x.a[0] == rep for x in apps):
                role = "reports"
            else:
                ins = [x.a[2] for x in subterms(nx) if x.op == "mins"]
                if any(x.op == "adt" and x.a[0] == self.EIDX for x in ins):
                    # opened or closed, by who adds to it
                    o = restrict(nx, self.D, "Open")
                    role = "open" if any(x.op == "mins" for x in subterms(o)) else "closed"
                elif any(x.op == "adt" and len(x.a[2]) >= 3 for x in ins):
                    role = "accounts"
            if role == "reports":
                role = "errors" if self.feeds_errors(p) else "warnings"
            if role is None or role in parts:
                self.extra.append((name, p))
            else:
                parts[role] = p
        for r in ("open", "closed", "accounts", "errors", "booked"):
            if r not in parts:
                raise facts.CannotDecide("the booking state has no part that acts as %s (found %s)" % (r, ", ".join(sorted(parts))))
        self.parts = parts
        acc = parts["accounts"]
        ins = [x.a[2] for x in subterms(acc.nx) if x.op == "mins" and x.a[2].op == "adt"]
        self.AB = ins[0].a[0]

    def appended(self, nx, lvt):
        out = []
        for x in subterms(nx):
            if x.op == "cat" and any(y is lvt or y.op in ("case", "vupd", "loopout") for y in x.a[:1]):
                for y in x.a[1:]:
                    for z in leaves(y):
                        if z.op == "seq":
                            out += list(z.a)
        return out

    def feeds_errors(self, p):
        """does this part become the errors of a failure"""
        for _, v in self.outs:
            for l in leaves(v):
                if l.op == "adt" and l.a[0] == RES and l.a[1] == "Err":
                    if p.final is not None and any(x is p.final for x in subterms(l)):
                        return True
                    if p.final is not None and p.final.op == "cat" and any(x in subterms(l) for x in p.final.a):
                        return True
                    d = p.final
                    if d is not None and d.op == "comp" and any(x.op == "comp" and x.a[1] is d.a[1] and same_items(x, d) for x in subterms(l)):
                        return True
        return False

    # ---- accessors ------------------------------------------------------------------------------------
    def payload(self, variant):
        return fld(variant, "0", self.v)

    def lv(self, role):
        return self.parts[role].lv

    def nx(self, role):
        return self.parts[role].nx if role in self.parts else None

    def state(self, acc, st):
        """assumptions: what the maps know about an account"""
        o, c, a = (mk("has", self.lv(r), acc) for r in ("open", "closed", "accounts"))
        return {"open": [(o, 1), (c, 0), (a, 1)], "closed": [(o, 0), (c, 1), (a, 1)], "never": [(o, 0), (c, 0), (a, 0)]}[st]

    def account(self, acc):
        return mk("mval", self.lv("accounts"), acc)

    def af(self, acc, name):
        return fld("", name, self.account(acc))

    def apply(self, t, asm):
        for s, l in asm:
            if s.op == "case" or s is TRUE or s is FALSE:
                continue
            t = restrict(t, s, l)
        return deep(t, asm)

    def row(self, role, variant, asm, env=None):
        """next value of a part in a situation"""
        t = self.nx(role)
        t = restrict(t, self.D, variant)
        t = self.apply(t, asm)
        if env is not None:
            t = settle(t, env)
        return t


def core(t):
    """the list that a list is made from"""
    while t.op in ("rev", "sorted", "unord", "skip", "take", "step_by", "comp", "call"):
        ks = [x for x in t.a if x.__class__ is T]
        if not ks:
            return t
        if t.op == "sorted":
            ks = [x for x in ks if x.op != "str"][:1] or ks
        t = ks[0]
    return t


def deep(t, asm):
    """use assumptions also inside the conditions of a term"""
    m = {s: l for s, l in asm}
    if not any(y in m for s in t.sc for k in s.kids for y in k.sc):
        return t

    def f(x):
        if x in m and m[x] in (0, 1):
            return K(m[x])
        if x.op == "case" and x.a[0] in m:
            return cof(x, x.a[0], m[x.a[0]])
        return x
    for _ in range(4):
        u = rewrite(t, f, {})
        if u is t:
            break
        t = u
    return t


def same_items(a, b):
    x, y = set(t for l in leaves(a.a[2]) if l.op == "seq" for t in l.a), set(t for l in leaves(b.a[2]) if l.op == "seq" for t in l.a)
    return bool(x & y) or not (x ^ y)


BINARY = {"min": min, "max": max, "saturating_sub": lambda x, y: x - y, "saturating_add": lambda x, y: x + y, "saturating_mul": lambda x, y: x * y}


# ---- numbers --------------------------------------------------------------------------------------
def num(t, env):
    """value of a numeric term under a valuation of its bases, or None"""
    if t in env:
        return env[t]
    o = t.op
    if o == "k" and isinstance(t.a[0], (int, Fraction)):
        return Fraction(t.a[0])
    if o == "add":
        xs = [num(x, env) for x in t.a]
        return None if None in xs else sum(xs)
    if o == "sub":
        x, y = num(t.a[0], env), num(t.a[1], env)
        return None if x is None or y is None else x - y
    if o == "neg":
        x = num(t.a[0], env)
        return None if x is None else -x
    if o == "mul":
        x, y = num(t.a[0], env), num(t.a[1], env)
        return None if x is None or y is None else x * y
    if o == "arith" and t.a[0] == "Div":
        x, y = num(t.a[1], env), num(t.a[2], env)
        return None if x is None or not y else x / y
    if o == "abs" or (o == "call" and t.a[0].split("::")[-1] == "abs"):
        x = num(t.a[-1], env)
        return None if x is None else abs(x)
    if o == "call" and len(t.a) == 3 and t.a[0].split("::")[-1] in BINARY:
        x, y = num(t.a[1], env), num(t.a[2], env)
        return None if x is None or y is None else BINARY[t.a[0].split("::")[-1]](x, y)
    if o == "one":
        return Fraction(1)
    if o == "poly":
        xs = [num(x, env) for x in t.a[1:]]
        return None if None in xs else sum(Fraction(c) * x for c, x in zip(t.a[0], xs))
    if o == "prod":
        xs = [num(x, env) for x in t.a]
        if None in xs:
            return None
        n = Fraction(1)
        for x in xs:
            n *= x
        return n
    if o in ("min", "max"):
        x, y = num(t.a[0], env), num(t.a[1], env)
        return None if x is None or y is None else (min if o == "min" else max)(x, y)
    if o == "call" and t.a[0] == "Decimal::new":
        n, s = num(t.a[1], env), num(t.a[2], env)
        return None if n is None or s is None else n / Fraction(10) ** int(s)
    if o == "case":
        s = t.a[0]
        l = truth(s, env)
        if l is not None:
            return num(restrict(t, s, l), env)
    if o == "sum" and t.a[0].op == "seq":
        xs = [num(x, env) for x in t.a[0].a]
        return None if None in xs else sum(xs)
    return None


def truth(a, env):
    """1/0 for a comparison of numbers, None if it is not one"""
    if a in env:
        return env[a]
    if a.op == "lt":
        x, y = num(a.a[0], env), num(a.a[1], env)
        return None if x is None or y is None else int(x < y)
    if a.op == "eq":
        x, y = num(a.a[0], env), num(a.a[1], env)
        return None if x is None or y is None else int(x == y)
    if a.op == "call" and a.a[0] in ("Decimal::is_zero",):
        x = num(a.a[1], env)
        return None if x is None else int(x == 0)
    if a.op == "call" and a.a[0] in ("Decimal::is_sign_negative", "Decimal::is_sign_positive"):
        x = num(a.a[1], env)
        if x is None or x == 0:
            return None
        return int((x < 0) == a.a[0].endswith("negative"))
    if a.op == "discr":
        x = a.a[1]
        if x.op == "call" and x.a[0] == "cmp":
            p, q = num(x.a[1], env), num(x.a[2], env)
            if p is not None and q is not None:
                return "Less" if p < q else "Greater" if p > q else "Equal"
    return None


def settle(t, env):
    """decide the numeric conditions of a term"""
    done = set()
    for _ in range(500):
        n = 0
        for s in sorted(t.sc, key=lambda x: x.size):
            if s in done:
                continue
            done.add(s)
            l = truth(s, env)
            if l is not None:
                t = restrict(t, s, l)
                n += 1
                break
        if not n:
            return t
    return t
