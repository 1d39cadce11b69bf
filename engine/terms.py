"""Provenance terms: interned, hash-consed symbolic descriptions of where a value comes from.

Gated values are multi-way decision diagrams: case(scrutinee, {label: term}) with scrutinees in a fixed
order, so that the same value computed by differently arranged branches has the same term."""
import hashlib
from functools import lru_cache

import sys
sys.setrecursionlimit(20000)

_tab = {}


class T:
    __slots__ = ("op", "a", "size", "dig", "sc", "kids", "lvs", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return (self.size, self.dig) < (o.size, o.dig)


EMPTY = frozenset()
UNIV = {}      # adt path -> [variant names]
BOOLS = set()  # atoms known to be boolean


# binders: first argument is the level; the first n children lie outside the scope, the others inside
BIND = {"comp": 1, "any": 1, "first": 1, "firstidx": 1, "loopout": 2, "lam": 0}


def bound_by(x, L):
    return any([l.a[0] == L for l in x.lvs])


def mk(op, *args):
    key = (op,) + tuple([(id(x) if x.__class__ is T else (x.__class__, x)) for x in args])
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = args
    kids = tuple([x for x in args if x.__class__ is T])
    t.kids = kids
    size = 1 + sum([k.size for k in kids])
    if op == "fld" and args[0]:
        size += 3
    t.size = min(size, 1 << 40)
    h = hashlib.sha1(op.encode())
    for x in args:
        if x.__class__ is T:
            h.update(b"T" + x.dig)
        else:
            h.update(b"P" + repr(x).encode())
    t.dig = h.digest()
    if kids:
        if len(kids) == 1:
            sc = kids[0].sc
            lvs = kids[0].lvs
        else:
            sc = EMPTY.union(*[k.sc for k in kids])
            lvs = EMPTY.union(*[k.lvs for k in kids])
    else:
        sc = lvs = EMPTY
    if op == "case":
        sc = sc | {args[0]}
    nb = BIND.get(op)
    if nb is not None:
        L = args[0]
        inner = kids[nb:]
        lo = EMPTY.union(*[k.lvs for k in kids[:nb]]) if nb else EMPTY
        so = EMPTY.union(*[k.sc for k in kids[:nb]]) if nb else EMPTY
        lvs = lo.union(*[frozenset([x for x in k.lvs if x.a[0] != L]) for k in inner])
        sc = so.union(*[frozenset([x for x in k.sc if not bound_by(x, L)]) for k in inner])
    if op in ("lv", "elem", "idx", "more", "bv"):
        lvs = lvs | {t}
    t.sc = sc
    t.lvs = lvs
    _tab[key] = t
    return t


def K(v):
    if v is True: v = 1
    if v is False: v = 0
    return mk("k", v)


def S(s):
    return mk("str", s)


TRUE, FALSE = K(1), K(0)
BOT = mk("bot")
UNIT = mk("tup")
EMPTYSEQ = mk("seq")


def tup(*xs): return mk("tup", *xs)
def seq(*xs): return mk("seq", *xs)


def adt(path, variant, names, vals):
    return mk("adt", path, variant or "", tuple(names), *vals)


OPT = "std::option::Option"
RES = "std::result::Result"
CFLOW = "std::ops::ControlFlow"
UNIV[OPT] = ["None", "Some"]
UNIV[RES] = ["Ok", "Err"]
UNIV[CFLOW] = ["Continue", "Break"]
NONE = adt(OPT, "None", (), ())
def some(x): return adt(OPT, "Some", ("0",), (x,))
def ok(x): return adt(RES, "Ok", ("0",), (x,))
def err(x): return adt(RES, "Err", ("0",), (x,))


def is_adt(t, path=None, variant=None):
    return t.op == "adt" and (path is None or t.a[0] == path) and (variant is None or t.a[1] == variant)


def adt_field(t, name):
    return t.a[3 + t.a[2].index(name)]


# predicates are never pushed inwards: they stay scrutinees
PRED = {"eq", "lt", "has", "any", "isempty", "contains", "discr", "more", "isfirst", "pred"}


def case_items(t):
    scrut, labels, hasdef = t.a[0], t.a[1], t.a[2]
    return scrut, dict(zip(labels, t.a[3:])), (t.a[-1] if hasdef else None)


def label_set(scrut):
    """finite label universe or None"""
    if scrut.op == "discr":
        return UNIV.get(scrut.a[0])
    if scrut in BOOLS or scrut.op in PRED:
        return [0, 1]
    return None


def is_bool_atom(t):
    return t.op != "case" and (t in BOOLS or (t.op in PRED and t.op != "discr"))


def top(t):
    if t.op == "case":
        return t.a[0]
    if is_bool_atom(t):
        return t
    return None


def cof(t, s, l):
    """top-level cofactor; l=None is the default branch"""
    if t is s:
        return K(l) if l in (0, 1) else t
    if t.op == "case" and t.a[0] is s:
        labels = t.a[1]
        if l is not None and l in labels:
            return t.a[3 + labels.index(l)]
        if t.a[2]:
            return t.a[-1]
        return BOT
    return t


_rcache = {}


def restrict(t, s, l):
    """substitute the knowledge s == l everywhere in t"""
    if s not in t.sc and not (is_bool_atom(s) and s in BOOLS_IN(t)):
        return t
    key = (t, s, l)
    r = _rcache.get(key)
    if r is not None:
        return r
    if t is s:
        r = K(l) if l in (0, 1) else t
    elif t.op == "case":
        if t.a[0] is s:
            r = restrict(cof(t, s, l), s, l)
        else:
            sc, items, d = case_items(t)
            r = case(restrict_sc(sc, s, l), {k: restrict(v, s, l) for k, v in items.items()},
                     restrict(d, s, l) if d is not None else None)
    else:
        nb = BIND.get(t.op)
        if nb is not None and bound_by(s, t.a[0]):
            r = rebuild(t, [restrict(k, s, l) if i < nb else k for i, k in enumerate(t.kids)])
        else:
            r = rebuild(t, [restrict(k, s, l) for k in t.kids])
    _rcache[key] = r
    return r


def restrict_sc(sc, s, l):
    # scrutinee terms keep their identity (they name an atom)
    return sc


_bi = {}


def BOOLS_IN(t):
    # boolean atoms used as plain values inside t
    r = _bi.get(t)
    if r is None:
        r = EMPTY
        if t.op == "case":
            for k in t.kids[1:]:
                r = r | BOOLS_IN(k)
        else:
            if is_bool_atom(t):
                r = r | {t}
            else:
                for k in t.kids:
                    r = r | BOOLS_IN(k)
                if t.op in BIND:
                    r = frozenset([x for x in r if not bound_by(x, t.a[0])])
        _bi[t] = r
    return r


def rebuild(t, kids):
    if len(kids) == len(t.kids) and all(x is y for x, y in zip(kids, t.kids)):
        return t
    it = iter(kids)
    args = [next(it) if x.__class__ is T else x for x in t.a]
    f = SMART.get(t.op)
    if f:
        return f(*args)
    return mk(t.op, *args)


SMART = {}


def _case_raw(s, items, default):
    labels = sorted(items, key=lambda x: (str(type(x)), x))
    if default is not None:
        # drop labels that equal the default
        labels = [l for l in labels if items[l] is not default]
        if not labels:
            return default
        return mk("case", s, tuple(labels), True, *[items[l] for l in labels], default)
    return mk("case", s, tuple(labels), False, *[items[l] for l in labels])


_ccache = {}


def case(s, items, default=None):
    """s: scrutinee atom. items: label -> term"""
    if s.op in ("k", "str"):
        v = s.a[0]
        return items.get(v, default if default is not None else BOT)
    if s.op == "case":
        sc, it, d = case_items(s)
        return case(sc, {k: case(v, items, default) for k, v in it.items()},
                    case(d, items, default) if d is not None else None)
    if s.op == "bot":
        return BOT
    u = label_set(s)
    if u is not None:
        items = {l: items.get(l, default if default is not None else BOT) for l in u}
        default = None
    key = (s, tuple(sorted(items.items(), key=lambda x: str(x[0]))), default)
    r = _ccache.get(key)
    if r is None:
        r = _case(s, items, default)
        _ccache[key] = r
    return r


def _case(s, items, default):
    while default is not None and default.op == "case" and default.a[0] is s:
        _, it2, d2 = case_items(default)     # the same question again: its answers join the others
        items = dict(items)
        for l, v in it2.items():
            items.setdefault(l, v)
        default = d2
    items = {l: restrict(v, s, l) for l, v in items.items()}
    vals = list(items.values()) + ([default] if default is not None else [])
    live = [v for v in vals if v is not BOT]
    if not live:
        return BOT
    first = live[0]
    if all(v is first for v in live):
        return first
    # order
    tops = [t for t in (top(v) for v in live) if t is not None and t is not s]
    if tops:
        m = min(tops)
        if m < s:
            labels = set()
            opend = False
            for v in live:
                if v.op == "case" and v.a[0] is m:
                    labels.update(v.a[1])
                    opend = opend or v.a[2]
                elif v is m:
                    labels.update((0, 1))
            um = label_set(m)
            if um is not None:
                labels = set(um)
                opend = False
            res = {l: case(s, {k: restrict(v, m, l) if v.op != "case" or v.a[0] is not m else cof(v, m, l) for k, v in items.items()},
                           (cof(default, m, l) if default is not None else None)) for l in labels}
            d = None
            if opend:
                d = case(s, {k: cof(v, m, None) for k, v in items.items()},
                         (cof(default, m, None) if default is not None else None))
            return _push(m, res, d)
    return _push(s, items, default)


def _push(s, items, default):
    vals = list(items.values()) + ([default] if default is not None else [])
    live = [v for v in vals if v is not BOT]
    if not live:
        return BOT
    f = live[0]
    if all(v is f for v in live):
        return f
    # eta: booleans
    if default is None and set(items) == {0, 1} and items[0] is FALSE and items[1] is TRUE:
        if s in BOOLS or s.op in PRED:
            return s
    # eta: adt reconstruction / identity
    if s.op == "discr" and default is None:
        b = s.a[1]
        if all(v is BOT or v is b or _is_eta(v, b, l) for l, v in items.items()):
            if all(v is not BOT for v in items.values()):
                return b
    # push inwards
    if f.op in ("adt", "tup", "seq", "cat", "call", "clo", "toset", "tomap", "sum", "fmt", "comp1", "lam", "first") and len(live) == len(vals):
        shape = (f.op, tuple(x if x.__class__ is not T else None for x in f.a))
        if all((v.op, tuple(x if x.__class__ is not T else None for x in v.a)) == shape for v in live):
            n = len(f.kids)
            if n:
                kids = []
                for i in range(n):
                    kids.append(case(s, {l: v.kids[i] for l, v in items.items()},
                                     default.kids[i] if default is not None else None))
                return rebuild(f, kids)
    # push below an inner case with the same scrutinee
    if f.op == "case" and all(v.op == "case" and v.a[0] is f.a[0] and v.a[1] == f.a[1] and v.a[2] == f.a[2] for v in vals):
        n = len(f.kids) - 1
        subs = []
        okp = True
        for i in range(n):
            ks = {l: v.kids[1 + i] for l, v in items.items()}
            kd = default.kids[1 + i] if default is not None else None
            kv = list(ks.values()) + ([kd] if kd is not None else [])
            if all(x is kv[0] for x in kv):
                subs.append(kv[0])
                continue
            r = case(s, ks, kd)
            if r.op == "case" or r is s:
                okp = False
                break
            subs.append(r)
        if okp:
            labels = f.a[1]
            return _push(f.a[0], dict(zip(labels, subs)), subs[-1] if f.a[2] else None)
    return _case_raw(s, items, default)


def _is_eta(v, b, label):
    if v.op != "adt" or v.a[1] != label:
        return False
    for name, x in zip(v.a[2], v.a[3:]):
        if not (x.op == "fld" and x.a[0] == label and x.a[1] == name and x.a[2] is b):
            return False
    return True


SMART["case"] = None  # handled specially


def _smart_case(s, labels, hasdef, *ch):
    return case(s, dict(zip(labels, ch)), ch[-1] if hasdef else None)


SMART["case"] = _smart_case


# ---- booleans -----------------------------------------------------------------------------------
def bx(t):
    """boolean view: a case term or a constant"""
    return t


def NOT(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == "bot": return BOT
    if t.op == "case":
        s, it, d = case_items(t)
        return case(s, {k: NOT(v) for k, v in it.items()}, NOT(d) if d is not None else None)
    BOOLS.add(t)
    return case(t, {1: FALSE, 0: TRUE})


def ITE(c, a, b):
    """if c then a else b, c any boolean term"""
    if c is TRUE: return a
    if c is FALSE: return b
    if c is BOT: return BOT
    if a is b: return a
    if c.op == "case":
        s, it, d = case_items(c)
        return case(s, {k: ITE(v, a, b) for k, v in it.items()}, ITE(d, a, b) if d is not None else None)
    if c.op != "k":
        BOOLS.add(c)
    return case(c, {1: a, 0: b})


_and = {}


def AND(a, b):
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE or b is FALSE: return FALSE
    if a is b: return a
    key = (a, b)
    r = _and.get(key)
    if r is None:
        r = _and[key] = nobot(ITE(a, b, FALSE))
    return r


def OR(a, b):
    if a is FALSE: return b
    if b is FALSE: return a
    if a is TRUE or b is TRUE: return TRUE
    if a is b: return a
    return nobot(ITE(a, TRUE, b))


def nobot(t):
    """in boolean context an impossible branch is false"""
    return t if t is not BOT else FALSE


def implies(a, b):
    return AND(a, NOT(b)) is FALSE


def eqlabel(scrut_val, label):
    """boolean: the switch value scrut_val has this label"""
    if scrut_val.op in ("k", "str"):
        return TRUE if scrut_val.a[0] == label else FALSE
    if scrut_val.op == "case":
        s, it, d = case_items(scrut_val)
        return case(s, {k: eqlabel(v, label) for k, v in it.items()}, eqlabel(d, label) if d is not None else None)
    if scrut_val.op == "bot":
        return FALSE
    u = label_set(scrut_val)
    if u is not None:
        return case(scrut_val, {l: (TRUE if l == label else FALSE) for l in u})
    return case(scrut_val, {label: TRUE}, FALSE)


def sel(pairs):
    """merge gated values [(cond, value)] with disjoint conditions"""
    pairs = [(c, v) for c, v in pairs if c is not FALSE and c is not BOT]
    if not pairs:
        return BOT
    f = pairs[0][1]
    if all(v is f for _, v in pairs):
        return f
    live = [v for _, v in pairs if v is not BOT]
    if live and all(v is live[0] for v in live):
        return live[0]
    for c, v in pairs:
        if c is TRUE:
            return v
    tops = [top(c) for c, _ in pairs]
    tops = [t for t in tops if t is not None]
    if not tops:
        return f
    s = min(tops)
    labels = set()
    opend = False
    for c, _ in pairs:
        if c.op == "case" and c.a[0] is s:
            labels.update(c.a[1])
            opend = opend or c.a[2]
        elif c is s:
            labels.update((0, 1))
    u = label_set(s)
    if u is not None:
        labels, opend = set(u), False
    res = {l: sel([(cof(c, s, l), v) for c, v in pairs]) for l in labels}
    d = sel([(cof(c, s, None), v) for c, v in pairs]) if opend else None
    return case(s, res, d)


_forced = {}


def forced(pc):
    """scrutinees whose label is determined by pc: {scrut: label}"""
    r = _forced.get(pc)
    if r is not None:
        return r
    r = {}
    if pc.op == "case" or is_bool_atom(pc):
        cur = [pc]
        scs = set(pc.sc) | (BOOLS_IN(pc))
        for s in scs:
            ls = _feasible(pc, s)
            if ls is not None and len(ls) == 1:
                l = next(iter(ls))
                if l is not None:
                    r[s] = l
    _forced[pc] = r
    return r


def _feasible(pc, s, memo=None):
    """labels of s on paths to TRUE; None = s not tested on some path (all possible)"""
    if memo is None:
        memo = {}
    if pc in memo:
        return memo[pc]
    if pc is FALSE or pc is BOT:
        r = set()
    elif pc is TRUE or pc.op == "k":
        r = None
    elif pc is s:
        r = {1}
    elif pc.op == "case":
        sc, it, d = case_items(pc)
        if sc is s:
            r = set()
            for l, v in it.items():
                if v is not FALSE and v is not BOT:
                    r.add(l)
            if d is not None and d is not FALSE and d is not BOT:
                r.add(None)
        else:
            r = set()
            for v in list(it.values()) + ([d] if d is not None else []):
                q = _feasible(v, s, memo)
                if q is None:
                    r = None
                    break
                r |= q
    else:
        r = None
    memo[pc] = r
    return r


def simp(t, pc):
    """simplify t under pc"""
    if pc is TRUE:
        return t
    for s, l in forced(pc).items():
        t = restrict(t, s, l)
    return prune(t, pc)


def prune(t, pc):
    """drop top-level case branches that contradict pc"""
    if t.op != "case" or pc is TRUE:
        return t
    s, it, d = case_items(t)
    out = {}
    for l, v in it.items():
        p = AND(pc, eqlabel(s, l))
        out[l] = BOT if p is FALSE else prune(v, p)
    dd = None
    if d is not None:
        p = pc
        for l in it:
            p = AND(p, NOT(eqlabel(s, l)))
        dd = BOT if p is FALSE else prune(d, p)
    return case(s, out, dd)


def rel(pc, base):
    """pc with the knowledge of base removed"""
    for s, l in forced(base).items():
        pc = restrict(pc, s, l)
    return pc


# ---- substitution -------------------------------------------------------------------------------
def subst(t, m, memo=None):
    """replace subterms by map m (T -> T), bottom-up rebuild"""
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, memo, any(k.op not in ("lv", "elem", "idx", "more", "bv") for k in m), keys)


def _subst(t, m, memo, full, keys):
    r = m.get(t)
    if r is not None:
        return r
    if not full and not (t.lvs & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    nb = BIND.get(t.op)
    if not t.kids:
        r = t
    elif nb is not None and any(bound_by(k, t.a[0]) for k in keys):
        L = t.a[0]
        m2 = {k: v for k, v in m.items() if not bound_by(k, L)}
        k2 = frozenset(m2)
        memo2 = {}
        r = rebuild(t, [_subst(k, m, memo, full, keys) if i < nb else (_subst(k, m2, memo2, full, k2) if m2 else k) for i, k in enumerate(t.kids)])
    else:
        r = rebuild(t, [_subst(k, m, memo, full, keys) for k in t.kids])
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.kids)


def contains_op(t, ops):
    return any(x.op in ops for x in subterms(t))


# ---- smart constructors -------------------------------------------------------------------------
def dist(t, f):
    """distribute f over the leaves of a case"""
    if t.op == "case":
        s, it, d = case_items(t)
        return case(s, {k: dist(v, f) for k, v in it.items()}, dist(d, f) if d is not None else None)
    if t is BOT:
        return BOT
    return f(t)


def fld(variant, name, base):
    def g(b):
        if b.op == "adt":
            if variant and b.a[1] and b.a[1] != variant:
                return BOT
            if name in b.a[2]:
                return adt_field(b, name)
            return BOT
        if b.op == "tup":
            return b.a[int(name)]
        if b.op == "clo":
            return b.a[1 + int(str(name).lstrip("up"))]
        if b.op == "range" and name in ("start", "end"):
            return b.a[0 if name == "start" else 1]
        if b.op == "with":
            for p in range(1, len(b.a), 2):
                if b.a[p] == name:
                    return b.a[p + 1]
            return fld(variant, name, b.a[0])
        return mk("fld", variant or "", name, b)
    return dist(base, g)


SMART["fld"] = fld


def discr(path, base):
    def g(b):
        if b.op == "adt":
            return K(b.a[1]) if b.a[1] else K("")
        return mk("discr", path, b)
    return dist(base, g)


SMART["discr"] = discr


def is_some(o):
    return eqlabel(discr(OPT, o), "Some")


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("k", "str") and b.op in ("k", "str"):
        return FALSE
    if (a.op == "ref" and b.op == "k") or (b.op == "ref" and a.op == "k"):
        return FALSE       # null pointer checks
    if a.op == "k" and b.op != "k":
        a, b = b, a
    if a.op == "case" and b.op in ("k", "str", "adt"):
        return dist(a, lambda x: eq(x, b))
    if b.op == "case" and a.op in ("k", "str", "adt"):
        return dist(b, lambda x: eq(a, x))
    if b.op == "k" and a.op == "len" and b.a[0] == 0:
        return isempty(a.a[0])
    if b.op == "k" and (a.op == "discr" or is_bool_atom(a)):
        return eqlabel(a, b.a[0])
    if a.op == "str" and b.op != "str":
        a, b = b, a
    if b.op == "str" and a.op not in ("adt", "tup", "seq", "case"):
        return eqlabel(a, b.a[0])      # a switch on the string: the literals exclude each other
    if b.op == "adt" and a.op != "adt" and b.a[0] in UNIV and not b.a[2]:
        return eqlabel(discr(b.a[0], a), b.a[1])
    if a.op == "adt" and b.op != "adt" and a.a[0] in UNIV and not a.a[2]:
        return eqlabel(discr(a.a[0], b), a.a[1])
    if b < a:
        a, b = b, a
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[3:], b.a[3:]):
            r = AND(r, eq(x, y))
        return r
    return mk("eq", a, b)


SMART["eq"] = eq


def lt(a, b):
    if a.op == "k" and b.op == "k":
        try:
            return K(int(a.a[0] < b.a[0]))
        except TypeError:
            pass
    if a is b:
        return FALSE
    if a is K(0) and b.op == "len":
        return NOT(isempty(b.a[0]))
    if b is K(1) and a.op == "len":
        return isempty(a.a[0])
    if b is K(0) and a.op in ("len", "idx"):
        return FALSE
    return mk("lt", a, b)


SMART["lt"] = lt


def add(a, b):
    if a.op == "k" and b.op == "k":
        return K(a.a[0] + b.a[0])
    if a is K(0): return b
    if b is K(0): return a
    if b < a:
        a, b = b, a
    # (x+k1)+k2
    if b.op == "add" and a.op == "k":
        for i in (0, 1):
            if b.a[i].op == "k":
                return add(b.a[1 - i], K(b.a[i].a[0] + a.a[0]))
    return mk("add", a, b)


SMART["add"] = add


def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            out.extend(x.a)
        else:
            out.append(x)
    res = []
    for x in out:
        if x.op == "seq":
            if not x.a:
                continue
            if res and res[-1].op == "seq":
                res[-1] = seq(*(res[-1].a + x.a))
                continue
        res.append(x)
    if not res:
        return EMPTYSEQ
    if len(res) == 1:
        return res[0]
    return mk("cat", *res)


SMART["cat"] = cat


def comp(level, src, body):
    if src.op == "seq" and not src.a:
        return EMPTYSEQ
    if body.op == "seq":
        if not body.a:
            return EMPTYSEQ
        if len(body.a) == 1 and body.a[0] is mk("elem", level, src):
            return src
    if src.op == "seq" and len(src.a) <= 8 and not any(x.op in DEEPER and isinstance(x.a[0], int) and x.a[0] > level
                                                       for x in subterms(subst(body, {mk("elem", level, src): K(0)}))):
        # over given elements: what each of them gives
        e, i = mk("elem", level, src), mk("idx", level)
        return cat(*[subst(body, {e: x, i: K(n)}) for n, x in enumerate(src.a)])
    return mk("comp", level, src, body)


DEEPER = {"comp", "any", "first", "firstidx", "loopout", "elem", "idx", "more", "lam"}


SMART["comp"] = comp


def leaves(t):
    if t.op == "case":
        out = []
        for k in t.kids[1:]:
            out.extend(leaves(k))
        return out
    return [t]


def one_to_one(body):
    return all(l.op == "seq" and len(l.a) == 1 for l in leaves(body))


def isempty(s):
    def g(x):
        if x.op == "seq":
            return FALSE if x.a else TRUE
        if x.op in ("toset", "tomap", "unord", "rev"):
            return isempty(x.a[0])
        if x.op == "cat":
            r = TRUE
            for y in x.a:
                r = AND(r, isempty(y))
            return r
        if x.op == "comp":
            if one_to_one(x.a[2]):
                return isempty(x.a[1])
            if all(l.op == "seq" for l in leaves(x.a[2])):
                c = dist(x.a[2], lambda l: TRUE if l.a else FALSE)
                return NOT(any_(x.a[0], x.a[1], c))
        if x.op == "mins":
            return FALSE
        if x.op == "zip":
            return OR(isempty(x.a[0]), isempty(x.a[1]))
        if x.op == "range" and x.a[0] is K(0) and x.a[1].op == "len":
            return isempty(x.a[1].a[0])
        return mk("isempty", x)
    return dist(s, g)


SMART["isempty"] = isempty


def length(s):
    def g(x):
        if x.op == "seq":
            return K(len(x.a))
        if x.op == "comp" and one_to_one(x.a[2]):
            return length(x.a[1])
        if x.op == "rev":
            return length(x.a[0])
        if x.op == "unord":
            return length(x.a[0])
        if x.op == "cat" and any(y.op == "seq" for y in x.a):
            r = K(0)
            for y in x.a:
                r = add(r, length(y))
            return r
        if x.op == "range" and x.a[0] is K(0):
            return x.a[1]
        return mk("len", x)
    return dist(s, g)


SMART["len"] = length


def any_(level, src, cond):
    if cond is FALSE or (src.op == "seq" and not src.a):
        return FALSE
    if cond is TRUE:
        return NOT(isempty(src))
    if cond.op == "eq":
        # is there an element equal to a given value
        e = mk("elem", level, src)
        for x, y in ((cond.a[0], cond.a[1]), (cond.a[1], cond.a[0])):
            if x is e and not bound_by(y, level):
                return contains(src, y)
            if src.op == "unord" and x is fld("", "0", e) and not bound_by(y, level):
                return m_has(src.a[0], y)
    return mk("any", level, src, cond)


SMART["any"] = any_


def contains(s, x):
    def g(v):
        if v.op in ("toset",):
            return contains(v.a[0], x)
        if v.op == "unord":
            return contains(v.a[0], x)
        if v.op == "seq":
            r = FALSE
            for y in v.a:
                r = OR(r, eq(y, x))
            return r
        if v.op == "cat":
            r = FALSE
            for y in v.a:
                r = OR(r, contains(y, x))
            return r
        return mk("contains", v, x)
    return dist(s, g)


SMART["contains"] = contains


def toset(s):
    def g(x):
        if x.op in ("toset",):
            return x
        return mk("toset", x)
    # keep gated sets gated inside
    if s.op == "unord":
        return toset(s.a[0]) if s.a[0].op in ("toset", "case") else s.a[0]
    if s.op == "toset":
        return s
    if s.op == "case":
        ls = leaves(s)
        if any(l.op == "unord" for l in ls):
            return dist(s, toset)
    return mk("toset", s)


SMART["toset"] = toset


def unset(s):
    return dist(s, lambda x: x.a[0] if x.op in ("toset", "tomap") else x)


def mapempty():
    return mk("tomap", EMPTYSEQ)


def m_has(m, k):
    def g(x):
        if x.op == "tomap" and x.a[0] is EMPTYSEQ:
            return FALSE
        if x.op == "mins":
            e = eq(x.a[1], k)
            return ITE(e, TRUE, m_has(x.a[0], k))
        if x.op == "mrem":
            e = eq(x.a[1], k)
            return ITE(e, FALSE, m_has(x.a[0], k))
        return mk("has", x, k)
    return dist(m, g)


SMART["has"] = m_has


def m_val(m, k):
    def g(x):
        if x.op == "mins":
            e = eq(x.a[1], k)
            return ITE(e, x.a[2], m_val(x.a[0], k))
        if x.op == "mrem":
            return ITE(eq(x.a[1], k), BOT, m_val(x.a[0], k))
        if x.op == "tomap" and x.a[0] is EMPTYSEQ:
            return BOT
        return mk("mval", x, k)
    return dist(m, g)


SMART["mval"] = m_val


def m_ins(m, k, v):
    # under a gate the whole map is gated
    def g(x):
        if x.op == "mins" and x.a[1] is k:
            return m_ins(x.a[0], k, v)
        if v is m_val(x, k) and m_has(x, k) is TRUE:
            return x
        if v is mk("mval", x, k):
            return x   # writing back what is there
        return mk("mins", x, k, v)
    return dist(m, g)


SMART["mins"] = m_ins


def m_rem(m, k):
    def g(x):
        return mk("mrem", x, k)
    return dist(m, g)


SMART["mrem"] = m_rem


def index(v, i):
    def g(x):
        if x.op == "seq" and i.op == "k" and isinstance(i.a[0], int) and i.a[0] < len(x.a):
            return x.a[i.a[0]]
        if x.op == "vupd":
            e = eq(x.a[1], i)
            if e is TRUE:
                return x.a[2]
            if _differ(x.a[1], i):
                return index(x.a[0], i)
            return ITE(e, x.a[2], index(x.a[0], i))
        if i.op == "idx" and x.op not in ("lv", "seq", "cat", "loopout"):
            # the element met in this iteration of a loop over as many elements
            if x.op == "comp" and x.a[2].op == "seq" and len(x.a[2].a) == 1:
                return subst(x.a[2].a[0], {mk("elem", x.a[0], x.a[1]): index(x.a[1], i), mk("idx", x.a[0]): i})
            if x.op != "comp":
                return mk("elem", i.a[0], x)
        return mk("index", x, i)
    if i.op == "case":
        return dist(i, lambda ii: index(v, ii))
    return dist(v, g)


SMART["index"] = index


def _base_off(i):
    if i.op == "k" and isinstance(i.a[0], int):
        return None, i.a[0]
    if i.op == "add":
        for j in (0, 1):
            if i.a[j].op == "k":
                return i.a[1 - j], i.a[j].a[0]
    return i, 0


def _differ(i, j):
    a, x = _base_off(i)
    b, y = _base_off(j)
    return a is b and x != y


def vupd(v, i, val):
    def g(x):
        if x.op == "seq" and i.op == "k" and i.a[0] < len(x.a):
            l = list(x.a)
            l[i.a[0]] = val
            return seq(*l)
        if val is mk("index", x, i):
            return x
        if x.op == "vupd" and x.a[1] is i:
            return vupd(x.a[0], i, val)
        return mk("vupd", x, i, val)
    return dist(v, g)


SMART["vupd"] = vupd


def call(name, *args):
    return mk("call", name, *args)


# ---- printing -----------------------------------------------------------------------------------
def show(t, depth=0, maxd=14):
    if t.__class__ is not T:
        return str(t)
    if depth > maxd:
        return "…"
    r = lambda x: show(x, depth + 1, maxd)
    o = t.op
    if o == "k": return repr(t.a[0]) if isinstance(t.a[0], str) else str(t.a[0])
    if o == "str": return '"%s"' % t.a[0]
    if o == "bot": return "⊥"
    if o == "param": return str(t.a[0])
    if o == "adt":
        p = t.a[0].split("::")[-1]
        n = p + ("::" + t.a[1] if t.a[1] else "")
        if t.a[0] in (OPT, RES): n = t.a[1]
        if not t.a[2]: return n
        if t.a[2][0] == "0": return "%s(%s)" % (n, ", ".join(r(x) for x in t.a[3:]))
        return "%s{%s}" % (n, ", ".join("%s: %s" % (f, r(x)) for f, x in zip(t.a[2], t.a[3:])))
    if o == "tup": return "(" + ", ".join(map(r, t.a)) + ")"
    if o == "seq": return "[" + ", ".join(map(r, t.a)) + "]"
    if o == "case":
        s, it, d = case_items(t)
        return "{%s ? %s}" % (r(s), " | ".join("%s: %s" % (k, r(v)) for k, v in it.items()) + (" | *: " + r(d) if d is not None else ""))
    if o == "fld":
        return "%s.%s%s" % (r(t.a[2]), (t.a[0] + "." if t.a[0] else ""), t.a[1])
    if o == "discr": return "?" + r(t.a[1])
    if o == "call": return "%s(%s)" % (t.a[0], ", ".join(map(r, t.a[1:])))
    if o == "elem": return "e%d<%s>" % (t.a[0], r(t.a[1]))
    if o == "comp": return "for%d<%s>%s" % (t.a[0], r(t.a[1]), r(t.a[2]))
    return "%s(%s)" % (o, ", ".join(r(x) if x.__class__ is T else repr(x) for x in t.a))


def unun(q):
    """order is irrelevant from here on"""
    if q.op == "unord":
        return unset(q.a[0])
    if q.op == "comp" and q.a[1].op == "unord":
        lvl, src, body = q.a
        inner = src.a[0]
        m1 = {mk("elem", lvl, src): mk("elem", lvl, inner)}
        return comp(lvl, inner, subst(body, m1))
    if q.op == "case":
        return dist(q, unun)
    if q.op == "cat":
        return cat(*[unun(x) for x in q.a])
    return q


def add_all(x):
    r = K(0)
    for y in x.a:
        r = y if r is K(0) else add(r, y)
    return r


def sum_of(x):
    """the sum of a list; an element left out counts nothing"""
    if x.op == "seq":
        return add_all(x)
    if x.op == "comp" and all(l.op == "seq" for l in leaves(x.a[2])):
        return mk("sum", comp(x.a[0], x.a[1], dist(dist(x.a[2], add_all), lambda v: EMPTYSEQ if v is K(0) else seq(v))))
    return mk("sum", x)
