"""Building blocks of expected values."""
from engine.terms import *
from .judge import ABSENT, NULL, obj

_lev = [200000]


def c(name, *args):
    return call(name, *args)


def O(**kw):
    """object; member names with _ for - (type_ for type)"""
    return obj({k.rstrip("_").replace("_", "-"): v for k, v in kw.items()})


def opt(t, f=lambda x: x, none=ABSENT):
    """optional value, left out when there is none"""
    return case(mk("discr", OPT, t), {"None": none, "Some": f(fld("Some", "0", t))})


def each(src, f):
    """one item for each item of src, in order"""
    _lev[0] += 1
    L = _lev[0]
    return comp(L, src, seq(f(mk("elem", L, src))))


def nonempty(s, f):
    """left out when empty"""
    return ITE(isempty(s), ABSENT, f(s))


def on(adtpath, t, d):
    """by the variant of an enum; d: variant -> payload function or term"""
    def g(x):
        m = {}
        for v, r in d.items():
            m[v] = r(*[fld(v, str(i), x) for i in range(r.__code__.co_argcount)]) if callable(r) else r
        return case(mk("discr", adtpath, x), m) if x.op != "adt" else m.get(x.a[1], BOT)
    return dist(t, g)


def flag_if(cond):
    """true, or left out when false"""
    BOOLS.add(cond)
    return ITE(cond, TRUE, ABSENT)


def any_value():
    return mk("any!")
