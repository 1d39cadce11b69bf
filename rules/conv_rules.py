"""C07 and C31: conversions between representations."""
from engine.terms import *
from engine.interp import Interp
from lb.ctx import where
from lb.judge import ABSENT, KNOWN_OPS, NULL, obj, obj_items, sh, diff
from lb.spec import *
from lb.wire import tyname, tyargs
from lb import facts
from . import ledger
from .server_rules import member, result_of, parsed_part, pick_src

ENUMS = {"flag", "booking", "booking-method", "plugin-processing-mode"}


def last(p):
    return p.split("::")[-1]


def opt_inner(ty):
    t = tyname(ty)
    if t == OPT:
        return opt_inner(tyargs(ty)[0]) if tyargs(ty) else t
    return t


def plain(s):
    return s.lower().replace("_", "").replace("-", "")


def spec_skip(names):
    def skip(d):
        return not any(x in names for x in d.path)
    return skip


def hides(d, names):
    """a difference above the members of interest"""
    return not any(x in names for x in d.path) and any(y.op == "obj" and set(y.a[0]) & names for y in subterms(d.exp))


def C07(ctx, r):
    r.explain = ("Every function of the crate that takes a value of one enumeration of booking methods, processing modes or flags and returns a value of another is "
                 "evaluated over all variants and must map each to the variant of the same name; the text of each flag, and the wire name of each method and mode, "
                 "is compared in every member of the responses that holds one; what is read under a wire name is the variant written under it.")
    p = ctx.prog
    fams = {}
    for n, a in p.adts.items():
        if a["kind"] == "enum" and last(n) in ("Booking", "PluginProcessingMode", "Flag") and not n.startswith(("std::", "core::")):
            fams.setdefault(last(n), set()).add(n)
    if len(fams.get("Booking", ())) < 3:
        raise facts.CannotDecide("the three representations of booking methods were not found")
    # ---- functions from one representation to another
    seen = set()
    for b in p.bodies.values():
        if b["kind"] != "mono" or not b["argc"] or b["path"] in seen:
            continue
        args = [tyname(l[0]) for l in b["locals"][1:1 + b["argc"]]]
        ret = opt_inner(b["locals"][0][0])
        for fam, es in fams.items():
            srcs = [a for a in args if a in es]
            if len(srcs) == 1 and b["argc"] == 1 and ret in es and ret != srcs[0]:
                seen.add(b["path"])
                converts(ctx, r, b, fam, srcs[0], ret)
    r.floor("conversions", 2, "conversions between representations")
    # ---- members of the responses
    x = result_of(ctx, r, "parser.directives", "parser.directives")
    if x is not None:
        act = member(member(x[1], "result"), "directives")
        best = pick_src(act, list(parsed_part(ctx, "directives")))
        compare_enums(ctx, r, "directive", act, each(best, ledger.directive))
    x = result_of(ctx, r, "parser.options", "parser.options")
    if x is not None:
        act = member(x[1], "result")
        compare_enums(ctx, r, "options", act, ledger.options(pick_src(act, list(parsed_part(ctx, "options")))))
    # ---- reading is the inverse of writing
    for fam in ("Booking", "PluginProcessingMode"):
        for n in sorted(fams[fam]):
            rd = ctx.W.reads(n)
            wr = ctx.W.writes(n)
            if rd is None and (wr is None or not wr.ops):
                continue
            if rd is None or not rd.get("variants"):
                if rd is not None:
                    r.undecide("what is read as %s" % n)
                continue
            for v in sorted(UNIV[n]):
                w = written(ctx, n, v)
                r.count("names")
                if w is None:
                    r.undecide("what %s %s is written as" % (last(n), v))
                elif rd["variants"].get(w) != v and v in rd["variants"].values():
                    r.violate("%s:%s" % (last(n), v), "%s %s is written as %s, which is read as %s" % (last(n), v, w, rd["variants"].get(w, "an error")), where(rd.get("site")))
            for v in sorted(UNIV[n]):
                if v not in rd["variants"].values():
                    r.violate("%s:%s" % (last(n), v), "%s %s cannot be read" % (last(n), v), where(rd.get("site")))
    r.floor("names", 7, "wire names")


def written(ctx, n, v):
    j = ctx.J(adt(n, v, (), ()), n)
    return j.a[0] if j.op == "str" else None


def compare_enums(ctx, r, label, act, exp):
    r.count("compared")
    for d in diff(act, exp):
        if hides(d, ENUMS):
            r.undecide("%s: %s cannot be compared" % (label, ".".join(map(str, d.path)) or "the whole"))
    ctx.compare(r, label, act, exp, skip=spec_skip(ENUMS))


def converts(ctx, r, b, fam, src, dst):
    I = Interp(ctx.prog)
    x = mk("param", "v")
    try:
        outs = I.entry(b, [x])
    except Exception as e:
        r.undecide("%s: %r" % (b["path"], e))
        return
    r.count("conversions")
    v = sel([(st.pc, t) for st, t in outs])
    d = mk("discr", src, x)
    used = {}
    for l in sorted(UNIV[src]):
        t = restrict(v, d, l)
        if t.op == "adt" and t.a[0] == OPT:
            t = t.a[3] if t.a[1] == "Some" else t
        if t.op != "adt" or t.a[0] != dst:
            # the value itself, seen as the other type
            if t is x or (t.op == "cast" and t.a[-1] is x):
                r.count("variants")
                continue
            if t is NONE:
                r.violate("%s:%s" % (b["path"], l), "%s: %s is converted to nothing" % (fam, l), where(body_site(b)))
            else:
                r.undecide("%s: %s becomes %s" % (b["path"], l, sh(t)))
            continue
        r.count("variants")
        got = t.a[1]
        same = [m for m in UNIV[dst] if plain(m) == plain(l)]
        if same and got not in same:
            r.violate("%s:%s" % (last(src) + " to " + dst.split("::")[0], l), "%s %s becomes %s in the conversion from %s to %s" % (fam, l, got, src, dst), where(body_site(b)))
        elif not same and got in used:
            r.violate("%s:%s" % (last(src) + " to " + dst.split("::")[0], l), "%s: %s and %s both become %s" % (fam, l, used[got], got), where(body_site(b)))
        used.setdefault(got, l)


def body_site(b):
    s = b.get("span")
    if isinstance(s, (list, tuple)) and len(s) >= 2:
        return (b["path"], s[0], s[1])
    return (b["path"], str(s), None)


# ---- C31 ------------------------------------------------------------------------------------------
ACCESSORS = {
    "PostingSpec": {"account": "acc", "currency": "cur", "units": "units", "cost": "cost-spec", "price": "price-spec"},
    "CostSpec": {"currency": "cur", "per_unit": "per-unit", "total": "total", "date": "date", "label": "label", "merge": "merge"},
    "PriceSpec": {"currency": "cur", "per_unit": "per-unit", "total": "total"},
}


def C31(ctx, r):
    r.explain = ("The arguments of the booking call are compared with the list in the request's params when there is one, with the converted parsed directives when "
                 "there is none, and with the ledger's options; each accessor through which the booking engine reads a posting, cost or price is evaluated and must "
                 "give the field of the wire member of that meaning.")
    S = ctx.S
    calls = [c for c in S.I.calls if c["path"] == "api::booking::book"]
    if not calls:
        raise facts.CannotDecide("no call of api::booking::book in the server")
    opts = parsed_part(ctx, "options")
    askers = []
    for c in calls:
        site = c["site"]
        d, o = c["args"][0], c["args"][1]
        r.count("calls")
        best = pick_src(o, list(opts))
        for ld in leaves(o):
            if ld is not best:
                ctx.compare(r, "book: options", ld, best, site=site)
        qs = set()
        for t in [d, c["pc"]]:
            for x in subterms(t):
                if x.op == "discr" and x.a[0] == OPT and x.a[1].op == "fld" and any(y in S.reqok for y in subterms(x.a[1])):
                    qs.add(x)
        if not qs:
            if any(y in S.reqok for y in subterms(d)):
                r.undecide("book: whether directives were supplied is not asked")
            else:
                r.violate("book:client", "the directives booked do not depend on the request: %s" % sh(d), where(site))
            continue
        q = min(qs, key=lambda x: x.size)
        for l in sorted({"None", "Some"} - set()):
            t, pc = restrict(d, q, l), restrict(c["pc"], q, l)
            if pc is FALSE:
                continue
            r.count("situations")
            if l == "None":
                act = ctx.J(t, "std::vec::Vec<api::types::raw::Directive<'_>>")
                src = pick_src(act, list(parsed_part(ctx, "directives")))
                ctx.compare(r, "book of the ledger's directives", act, each(src, ledger.directive), site=site)
            else:
                want = fld("Some", "0", q.a[1])
                ok_ = [want] + [x for x in subterms(t) if x.op == "fld" and chain(x, want)]
                for lf in leaves(t):
                    if lf not in ok_:
                        ctx.compare(r, "book of the client's directives", lf, best_src(lf, want), site=site)
        askers.append(q)
    # whatever the client supplies, something is booked
    P = OR(*[c["pc"] for c in calls]) if len(calls) > 1 else calls[0]["pc"]
    for q in dict.fromkeys(askers):
        n, s = restrict(P, q, "None"), restrict(P, q, "Some")
        r.count("coverage")
        if n is s:
            continue
        d = OR(AND(n, NOT(s)), AND(s, NOT(n)))
        if d is not FALSE:
            f = [(x, l) for x, l in sorted(forced(d).items(), key=lambda x: x[0].size) if any(y in S.reqok for y in subterms(x)) and chain_in(x, fld("Some", "0", q.a[1]))]
            txt = ", ".join("%s=%s" % (sh(x, 80), l) for x, l in f[-3:])
            base = fld("Some", "0", q.a[1])
            if f and all(x.op in KNOWN_OPS for y, _ in f for x in subterms(subst(y, {base: mk("param", "p")}))):
                r.violate("book:not booked", "nothing is booked when %s" % txt, where(calls[0]["site"]))
            else:
                r.undecide("booking takes place in different situations with and without directives of the client: %s" % sh(d))
    r.floor("situations", 2, "ways of choosing the directives")
    from rules.booking_rules import whole_list
    whole_list(r, ctx.B)
    accessors(ctx, r)


def chain_in(x, base):
    return any(y is base for y in subterms(x))


def chain(x, base):
    while x.op == "fld":
        if x is base:
            return True
        x = x.a[2]
    return x is base


def best_src(t, want):
    """the longest projection of the request's params in a term"""
    xs = [x for x in subterms(t) if x.op == "fld" and chain(x, want)]
    return max(xs, key=lambda x: x.size) if xs else want


def accessors(ctx, r):
    """what the engine reads of a posting is the member of that meaning"""
    p, W = ctx.prog, ctx.W
    found = {}
    for b in p.bodies.values():
        tr = str(b.get("impl_trait") or "")
        if b["kind"] == "mono" and tr.startswith("limabean_booking::") and last(tr) in ACCESSORS:
            found.setdefault((last(tr), tyname(b["impl_self"])), {})[last(b["path"])] = b
    for (tr, ty), ms in sorted(found.items()):
        if ty not in p.adts:
            continue
        wm = W.members(ty)
        if wm is None:
            r.undecide("the wire members of %s" % ty)
            continue
        byname = {}
        for m in wm:
            name, val = (m[0].a[0] if m[0] is not None and m[0].op == "str" else None), m[1]
            fs = [x for x in subterms(val) if x.op == "fld" and x.a[2] is W.v]
            if not fs and m[2] is not TRUE:
                fs = [x for x in subterms(m[2]) if x.op == "fld" and x.a[2] is W.v]
            if name and fs:
                byname[name] = fs[0].a[1]
        for acc, wname in sorted(ACCESSORS[tr].items()):
            b = ms.get(acc)
            if b is None:
                r.undecide("%s::%s of %s is not found" % (tr, acc, ty))
                continue
            if wname not in byname:
                r.undecide("%s has no member %s" % (ty, wname))
                continue
            I = Interp(p)
            v = mk("param", "v")
            try:
                outs = I.entry(b, [v])
            except Exception as e:
                r.undecide("%s::%s: %r" % (tr, acc, e))
                continue
            t = sel([(st.pc, x) for st, x in outs])
            exp = fld("", byname[wname], v)
            r.count("accessors")
            if t is exp:
                continue
            ctx.compare(r, "%s::%s" % (tr, acc), t, exp, site=body_site(b))
    r.floor("accessors", 10, "accessors")
