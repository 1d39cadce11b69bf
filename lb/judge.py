"""Comparing what the code computes with what it should: canonical binders, differences, verdicts."""
from engine.terms import *
from engine.interp import *          # registers the remaining smart constructors
from engine import models            # noqa: F401

BASE = 100000
_alpha = {}


def alpha(t, env=None, depth=0):
    """rename binders by nesting depth, so that terms from different runs compare by identity"""
    if env is None:
        env = {}
    fe = tuple(sorted((x.a[0], env[x.a[0]]) for x in t.lvs if x.a[0] in env))
    if not fe and not has_binder(t):
        return t
    key = (t, fe, depth)
    r = _alpha.get(key)
    if r is not None:
        return r
    nb = BIND.get(t.op)
    if nb is not None:
        L = t.a[0]
        n = BASE + depth
        env2 = dict(env)
        env2[L] = n
        i = 0
        args = [n]
        for x in t.a[1:]:
            if x.__class__ is T:
                args.append(alpha(x, env, depth) if i < nb else alpha(x, env2, depth + 1))
                i += 1
            elif x.__class__ is tuple:
                args.append(x)
            else:
                args.append(x)
    else:
        args = [alpha(x, env, depth) if x.__class__ is T else x for x in t.a]
        if t.op in ("lv", "elem", "idx", "more", "bv", "isfirst") and args[0] in env:
            args[0] = env[args[0]]
        if t.op == "discr":
            args[0] = canon_path(args[0])
    f = SMART.get(t.op)
    r = f(*args) if f else mk(t.op, *args)
    _alpha[key] = r
    return r


_canon = {}


def canon_path(p):
    """one name for enums of the same name with the same variants: conversions between them by name are identities"""
    r = _canon.get(p)
    if r is None:
        k = (p.split("::")[-1], tuple(sorted(UNIV.get(p) or ())))
        r = p
        if k[1]:
            r = min([q for q, u in UNIV.items() if u and (q.split("::")[-1], tuple(sorted(u))) == k] + [p])
        _canon[p] = r
    return r


_hb = {}


def has_binder(t):
    r = _hb.get(t)
    if r is None:
        r = _hb[t] = t.op in BIND or (t.op == "discr" and canon_path(t.a[0]) != t.a[0]) or any([has_binder(k) for k in t.kids])
    return r


def rewrite(t, f, memo=None):
    """bottom-up, also below binders"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        if t.kids:
            args = [rewrite(x, f, memo) if x.__class__ is T else x for x in t.a]
            if any(x is not y for x, y in zip(args, t.a)):
                g = SMART.get(t.op)
                r = g(*args) if g else mk(t.op, *args)
            else:
                r = t
        else:
            r = t
        r = memo[t] = f(r)
    return r


# ---- JSON values --------------------------------------------------------------------------------
ABSENT = mk("absent")
NULL = mk("null")


def obj(d):
    """JSON object; values may be gated with ABSENT"""
    d = {k: v for k, v in d.items() if v is not ABSENT}
    if "+" in d and d["+"].op == "obj":
        inner = obj_items(d.pop("+"))
        if not (set(inner) & set(d)):
            d.update(inner)
        else:
            for k, v in inner.items():
                d[k] = mk("dup", v, d[k]) if k in d else v
    ks = sorted(d)
    return mk("obj", tuple(ks), *[d[k] for k in ks])


def obj_items(t):
    return dict(zip(t.a[0], t.a[1:]))


SMART["obj"] = lambda ks, *vs: obj(dict(zip(ks, vs)))


class Json:
    """the JSON value that serialising a term writes"""

    def __init__(self, W):
        self.W = W
        self.memo = {}
        self.unknown = []
        self.lev = 50000

    def __call__(self, t, ty=None):
        key = (t, ty)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.go(t, ty)
        return r

    def go(self, t, ty):
        from .wire import tyname, tyargs
        if t.op == "case":
            s, it, d = case_items(t)
            return case(s, {k: self(v, ty) for k, v in it.items()}, self(d, ty) if d is not None else None)
        if t is BOT:
            return BOT
        t = self.W.unwrap_with(t)
        if t.op == "case":
            return self(t, ty)
        if t.op == "fld" and t.a[0] == "Ok" and t.a[2].op == "call" and t.a[2].a[0] == "Date::format" and len(t.a[2].a) == 3 and self.W.is_iso(t.a[2].a[2]):
            return call("isodate", t.a[2].a[1])
        n = tyname(ty) if ty else None
        if n and n.endswith(("::Cow", "::Box", "::Rc", "::Arc")):
            return self(t, (tyargs(ty) or [None])[0])
        if is_adt(t):
            p = t.a[0]
            if p == OPT:
                return NULL if t.a[1] == "None" else self(t.a[3], (tyargs(ty) or [None])[0] if n == OPT else None)
            if p in self.W.serbody:
                return self.local(t, p)
            return t
        if n == OPT:
            inner = (tyargs(ty) or [None])[0]
            x = fld("Some", "0", t)
            return case(mk("discr", OPT, t), {"Some": self(x, inner), "None": NULL})
        if t.op in ("seq", "comp", "cat", "toset", "tomap", "unord"):
            a = tyargs(ty) if n else []
            if n and n.endswith("Map"):
                it = tuple(a)
            else:
                it = a[0] if a else (ty.strip("&[] ") if ty and ty.startswith(("[", "&[")) else None)
            return self.items(t, it)
        if t.op == "tup":
            if not t.a:
                return NULL
            return mk("arr", *[self(x) for x in t.a])
        if n and n in self.W.serbody:
            return self.local(t, n)
        if n and n.endswith(("::Vec", "HashSet", "BTreeSet")) or (ty and ty.lstrip("&'abrstic ").startswith("[")):
            a = tyargs(ty)
            inner = a[0] if a else None
            self.lev += 1
            lev = self.lev
            e = mk("elem", lev, t)
            y = self(e, inner)
            return t if y is e else comp(lev, t, seq(y))
        return t

    def items(self, t, ty):
        def one(x):
            if isinstance(ty, tuple) and x.op == "tup" and len(x.a) == 2:
                return tup(self(x.a[0], ty[0]), self(x.a[1], ty[1] if len(ty) > 1 else None))
            if x.op == "tup" and len(x.a) == 2 and x.op == "tup" and self.inmap:
                return tup(*[self(y) for y in x.a])
            return self(x, None if isinstance(ty, tuple) else ty)

        def body(b):
            if b.op == "case":
                s, it, d = case_items(b)
                return case(s, {k: body(v) for k, v in it.items()}, body(d) if d is not None else None)
            if b.op == "seq":
                return seq(*[one(x) for x in b.a])
            if b.op in ("comp", "cat"):
                return go(b)
            return b

        def go(x):
            if x.op == "seq":
                return seq(*[one(y) for y in x.a])
            if x.op == "comp":
                return comp(x.a[0], x.a[1], body(x.a[2]))
            if x.op == "cat":
                return cat(*[go(y) for y in x.a])
            if x.op in ("toset", "unord"):
                f = SMART.get(x.op)
                return f(go(x.a[0])) if f else mk(x.op, go(x.a[0]))
            if x.op == "tomap":
                o, self.inmap = self.inmap, True
                r = mk("tomap", go(x.a[0]))
                self.inmap = o
                return r
            if x.op == "case":
                return body(x)
            return x
        return go(t)

    inmap = False

    def fieldty(self, v, p):
        """declared type of a value reached from v by fields, or None"""
        if v is self.W.v:
            return p
        if v.op == "fld":
            bt = self.fieldty(v.a[2], p)
            if bt is None:
                return None
            from .wire import tyname, tyargs
            n = tyname(bt)
            if n == OPT and v.a[0] == "Some":
                return (tyargs(bt) or [None])[0]
            a = self.W.p.adts.get(n)
            if a is None:
                return None
            for vr in a["variants"]:
                if a["kind"] != "enum" or vr["name"] == v.a[0]:
                    for fn, ft in vr["fields"]:
                        if fn == v.a[1]:
                            return ft
        return None

    def local(self, t, p):
        W = self.W
        s = W.writes(p)
        if s is None or s.undecided or not s.ops:
            self.unknown.append(p)
            return t
        m = {W.v: t}
        memo = {}
        # formatting a date as a string does not fail
        fine = {d for c in s.ops for d in c["pc"].sc if d.op == "discr" and d.a[0] == RES and d.a[1].op == "call" and d.a[1].a[0] == "Date::format"}

        def sub(x):
            return subst(x, m, memo)
        roots = []
        for c in s.ops:
            n = c["name"].split("::")[-1]
            pc = c["pc"]
            for d in fine:
                pc = restrict(pc, d, "Ok")
            pc = sub(pc)
            if pc is FALSE or pc is BOT:
                continue
            A = c["args"]
            if n in ("serialize_struct", "serialize_map"):
                roots.append([pc, "obj", {}])
            elif n in ("serialize_tuple", "serialize_seq", "serialize_tuple_struct"):
                roots.append([pc, "arr", []])
            elif n in ("serialize_none", "serialize_unit", "serialize_unit_struct"):
                roots.append([pc, "val", NULL])
            elif n == "serialize_unit_variant":
                roots.append([pc, "val", sub(A[3])])
            elif n == "serialize_newtype_variant":
                roots.append([pc, "val", obj({A[3].a[0]: self.val(A[4], p, sub)})])
            elif n == "serialize_tagged_newtype":
                roots.append([pc, "val", obj({A[3].a[0]: sub(A[4]), "+": self.val(A[5], p, sub)})])
            elif n == "serialize_some" or n == "serialize_newtype_struct":
                roots.append([pc, "val", self.val(A[-1], p, sub)])
            elif c["name"] == "Serialize::serialize":
                if is_adt(A[1]) and A[1].a[0].endswith("FlatMapSerializer"):
                    v = self.val(A[0], p, sub)
                    for r in roots:
                        if r[1] == "obj":
                            r[2].setdefault("+", []).append((pc, v))
                else:
                    roots.append([pc, "val", self.val(A[0], p, sub)])
            elif n in ("serialize_field", "serialize_entry"):
                k = self(sub(A[1]))
                v = self.val(A[2], p, sub)
                for r in roots:
                    if r[1] == "obj" and AND(r[0], pc) is not FALSE:
                        r[2].setdefault(k.a[0] if k.op == "str" else "?" + show(k), []).append((pc, v))
            elif n == "serialize_element":
                v = self.val(A[1], p, sub)
                for r in roots:
                    if r[1] == "arr" and AND(r[0], pc) is not FALSE:
                        r[2].append((pc, v))
            elif n in ("end", "skip_field") or c["name"] in ("Date::format",):
                pass
            elif n.startswith("serialize_"):
                roots.append([pc, "val", self.val(A[-1], p, sub)])
            # other calls compute the values written
        pairs = []
        for pc, k, x in roots:
            if k == "obj":
                d = {}
                for key, vs in x.items():
                    r = ABSENT
                    for c2, v in vs:
                        c3 = rel(c2, pc) if pc is not TRUE else c2
                        r = ITE(boolof(c3), v, r)
                    d[key] = r
                x = obj(d)
            elif k == "arr":
                x = mk("arr", *[ITE(boolof(rel(c2, pc) if pc is not TRUE else c2), v, ABSENT) for c2, v in x])
            pairs.append((pc, x))
        return sel(pairs)

    def val(self, v, p, sub):
        k = self.W.with_key(p, v)
        if k is not None:
            inner = self.W.unwrap_with(v)
            s = self.W.ser[k]
            names = {x.a[0] for x in s.ext}
            if names:
                # a serialising function of a library
                n = sorted(names)[0]
                if "::arbitrary_precision" in n:
                    return self(sub(inner), self.fieldty(inner, p))
                return call("written_by " + n, sub(inner))
            if s.ops and not s.undecided:
                return self.local(sub(inner), k)
        v = self.W.unwrap_with(v)
        return self(sub(v), self.fieldty(v, p))


def boolof(c):
    return c


# ---- differences --------------------------------------------------------------------------------
class Diff:
    def __init__(self, path, pc, act, exp):
        self.path, self.pc, self.act, self.exp = path, pc, act, exp

    def __repr__(self):
        return "%s: %s instead of %s" % (".".join(map(str, self.path)) or "value", sh(self.act), sh(self.exp))


def sh(t, n=160):
    s = show(t, 0, 6)
    return s if len(s) <= n else s[:n] + "…"


class TooMany(Exception):
    pass


class Seen(set):
    """pairs compared; supp: how many were found equal only under their path condition"""
    supp = 0


def diff(a, e, path=(), pc=TRUE, out=None, limit=40, seen=None):
    """smallest differences between two terms"""
    if out is None:
        out = []
        seen = Seen()
        a, e = alpha(a), alpha(e)
    n = seen.supp
    diff_(a, e, path, pc, out, limit, seen)
    if seen.supp != n:
        seen.discard((a, e))
    return out


def diff_(a, e, path, pc, out, limit, seen):
    if a is e or a is BOT or e is BOT or e.op == "any!":
        return out
    if len(out) >= limit:
        return out
    key = (a, e)
    if key in seen:
        return out
    seen.add(key)
    if a.op == "case" or e.op == "case" :
        tops = [t for t in (a.a[0] if a.op == "case" else None, e.a[0] if e.op == "case" else None) if t is not None]
        s = min(tops)
        labels = set()
        opend = False
        for t in (a, e):
            if t.op == "case" and t.a[0] is s:
                labels.update(t.a[1])
                opend = opend or t.a[2]
        for l in sorted(labels, key=str):
            diff(cof_(a, s, l), cof_(e, s, l), path, AND(pc, eqlabel(s, l)), out, limit, seen)
        if opend:
            diff(cof_(a, s, None), cof_(e, s, None), path, pc, out, limit, seen)
        return out
    if a.op == "arr" and e.op == "arr" and len(a.a) != len(e.a):
        # what is left out at the end of an array does not count
        n = min(len(a.a), len(e.a))
        x = a if len(a.a) > n else e
        if all(y is ABSENT for y in x.a[n:]):
            a, e = mk("arr", *a.a[:n]), mk("arr", *e.a[:n])
            if a is e:
                return out
    if a.op == e.op:
        o = a.op
        if o == "obj":
            x, y = obj_items(a), obj_items(e)
            for k in sorted(set(x) | set(y)):
                diff(x.get(k, ABSENT), y.get(k, ABSENT), path + (k,), pc, out, limit, seen)
            return out
        if o == "adt" and a.a[:3] == e.a[:3]:
            for f, x, y in zip(a.a[2], a.a[3:], e.a[3:]):
                diff(x, y, path + (f,), pc, out, limit, seen)
            return out
        if o in ("seq", "tup", "arr") and len(a.a) == len(e.a):
            for i, (x, y) in enumerate(zip(a.a, e.a)):
                diff(x, y, path + (i,), pc, out, limit, seen)
            return out
        if o == "comp":
            n = len(out)
            diff(a.a[1], e.a[1], path + ("items",), pc, out, limit, seen)
            if len(out) == n:
                diff(a.a[2], e.a[2], path + ("each",), pc, out, limit, seen)
            return out
        if o in ("toset", "tomap", "unord", "rev", "fmt", "disp") and len(a.a) == len(e.a) and all(x.__class__ is T for x in a.a):
            for x, y in zip(a.a, e.a):
                diff(x, y, path, pc, out, limit, seen)
            return out
        if o in ("mins", "mrem", "vupd", "loopout", "after", "range", "sum", "index", "fld", "poly") and len(a.a) == len(e.a) and all(
                x == y for x, y in zip(a.a, e.a) if x.__class__ is not T):
            # only when exactly one operand differs is it to blame
            ks = [(i, x, y) for i, (x, y) in enumerate(zip(a.a, e.a)) if x.__class__ is T and x is not y]
            if o in ("mins", "vupd", "loopout", "after", "range") or (len(ks) == 1 and o in ("mrem", "sum", "index")):
                for i, x, y in ks:
                    diff(x, y, path + (("key" if o in ("mins", "mrem") and i == 1 else i),) if not (o == "mins" and i == 2) else path, pc, out, limit, seen)
                return out
        if o == "cat" and len(a.a) == len(e.a):
            for i, (x, y) in enumerate(zip(a.a, e.a)):
                diff(x, y, path + (i,), pc, out, limit, seen)
            return out
    if pc is not TRUE and (unfolded(a, e, pc) or unfolded(e, a, pc)):
        seen.supp += 1
        return out
    out.append(Diff(path, pc, a, e))
    return out


def unfolded(a, e, pc):
    """a is e written out as the variant that e is known to be"""
    if a.op != "adt" or not a.a[1]:
        return False
    f = forced(pc)
    if f.get(mk("discr", a.a[0], e)) != a.a[1] and f.get(mk("discr", canon_path(a.a[0]), e)) != a.a[1]:
        return False
    return all(y.op == "fld" and y.a[2] is e and y.a[1] == n and y.a[0] == a.a[1] for n, y in zip(a.a[2], a.a[3:]))


def cof_(t, s, l):
    return cof(t, s, l) if l is None else restrict(t, s, l)


# operations whose meaning is settled: a value made of these alone is known to differ when its term does
KNOWN_OPS = {"fld", "adt", "case", "str", "k", "discr", "elem", "comp", "seq", "tup", "param", "toset", "tomap", "obj", "arr", "absent", "null",
             "isempty", "len", "eq", "lt", "fmt", "disp", "text", "add", "sub", "neg", "range", "cat", "has", "mval", "idx", "index", "any", "rev",
             "bot", "isfirst", "min", "max", "mul", "not", "and", "or", "zip", "dup", "sorted", "unord", "arith", "skip", "first", "firstidx", "with", "contains", "take", "step_by", "sum", "pred", "flatten", "srem", "mins", "mrem", "opaque", "const", "named", "cast", "read", "utf8_lossy", "abs", "sum", "tostr"}
# library transformations that change what they are given
TRANSFORMS = ("to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase", "trim", "trim_start", "trim_end", "trim_matches",
              "replace", "round", "round_dp", "round_dp_with_strategy", "normalize", "trunc", "trunc_with_scale", "floor", "ceil", "abs", "rescale", "take", "skip", "step_by",
              "fract", "min", "max", "next_day", "previous_day", "saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub", "repeat", "chars",
              "split", "truncate", "strip_prefix", "strip_suffix", "trim_start_matches", "trim_end_matches", "nth", "last", "from_utf8_lossy", "escape_default", "escape_debug",
              "to_f64", "to_f32", "from_f64", "to_i64", "to_u64", "div", "mul", "add", "sub", "neg", "not", "swap_remove", "replacen", "slice")


class Judge:
    """accessors: names of calls that merely read their argument"""

    def __init__(self, accessor=lambda name: False):
        self.accessor = accessor

    def opaque(self, t):
        """parts of the term whose meaning is not settled"""
        bad = []
        for x in subterms(t):
            if x.op == "call":
                n = x.a[0]
                if not self.accessor(n) and n.split("::")[-1] not in TRANSFORMS and n not in ("isodate", "Date::format") and not n.startswith("written_by rust_decimal::"):
                    bad.append(x)
            elif x.op not in KNOWN_OPS:
                bad.append(x)
        return bad

    def reads(self, t):
        return {x.a[0] for x in subterms(t) if x.op == "call" and self.accessor(x.a[0])}

    def verdict(self, d):
        """"differs" or "unknown" for a Diff"""
        bad = self.opaque(d.act)
        if not bad:
            return "differs"
        if any(x.op in ("unk", "lv", "poison") for x in bad):
            return "unknown"
        if self.reads(d.exp) - self.reads(d.act):
            return "differs"
        return "unknown"
