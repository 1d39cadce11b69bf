"""Normal forms: arithmetic up to reordering, copies field by field as the value copied."""
from fractions import Fraction
from engine.terms import *
from .judge import rewrite

ARITH = {"add", "sub", "neg", "mul"}


def poly(t):
    """{monomial (sorted tuple of bases): coefficient}"""
    o = t.op
    if o == "poly":
        out = {}
        for c, b in zip(t.a[0], t.a[1:]):
            out[tuple(b.a) if b.op == "prod" else () if b.op == "one" else (b,)] = Fraction(c)
        return out
    if o == "k" and isinstance(t.a[0], (int, Fraction)) and not isinstance(t.a[0], bool):
        return {(): Fraction(t.a[0])} if t.a[0] else {}
    if o == "add":
        out = {}
        for x in t.a:
            for m, c in poly(x).items():
                out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}
    if o == "sub":
        out = dict(poly(t.a[0]))
        for m, c in poly(t.a[1]).items():
            out[m] = out.get(m, 0) - c
        return {m: c for m, c in out.items() if c}
    if o == "neg":
        return {m: -c for m, c in poly(t.a[0]).items()}
    if o == "mul":
        out = {}
        p, q = poly(t.a[0]), poly(t.a[1])
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n))
                out[k] = out.get(k, 0) + c * d
        return {m: c for m, c in out.items() if c}
    return {(t,): Fraction(1)}


ONE = mk("one")


def unpoly(p):
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0]
    if not p:
        return K(0)
    if set(p) == {()} and p[()].denominator == 1:
        return K(int(p[()]))
    ms = sorted(p, key=lambda m: (len(m), m))
    bs = [ONE if not m else m[0] if len(m) == 1 else mk("prod", *m) for m in ms]
    return mk("poly", tuple(str(p[m]) for m in ms), *bs)


def smart_poly(cs, *bs):
    out = {}
    for c, b in zip(cs, bs):
        if b.op == "case":
            # gated operand: leave as it is
            pass
        m = poly(mk("mul", K(1), b)) if b.op in ARITH else {(b,): Fraction(1)}
        if b.op == "prod":
            m = {tuple(sorted(b.a)): Fraction(1)}
        if b.op == "one":
            m = {(): Fraction(1)}
        if b.op == "poly":
            m = poly(b)
        if b.op == "k":
            m = poly(b)
        for k, d in m.items():
            out[k] = out.get(k, 0) + d * Fraction(c)
    return unpoly({m: c for m, c in out.items() if c})


SMART["poly"] = smart_poly


def has_op(t, ops):
    return any(x.op in ops for x in subterms(t))


def copied(adts):
    """adt built from all fields of one value -> that value"""
    def f(t):
        if t.op == "adt" and len(t.a) > 3:
            x = t.a[3]
            if x.op == "fld" and x.a[1] == t.a[2][0]:
                b, v = x.a[2], x.a[0]
                if all(y.op == "fld" and y.a[2] is b and y.a[1] == n and y.a[0] == v for n, y in zip(t.a[2], t.a[3:])):
                    if t.a[1] == v:
                        return b
        return t
    return f


_memo = {}


def norm(t, adts=None):
    r = _memo.get(t)
    if r is not None:
        return r
    eta = copied(adts)

    def f(x):
        if x.op in ARITH:
            return unpoly(poly(x))
        return eta(x)
    r = _memo[t] = rewrite(t, f, {})
    return r
