"""C09, C11 and C12: members of the protocol objects in both directions."""
import re
from engine.terms import *
from engine.interp import Interp
from lb.ctx import where
from lb.judge import sh
from lb.wire import tyname, tyargs, ReadHooks
from lb import facts

COW = ("std::borrow::Cow", "alloc::borrow::Cow")
STRING = ("std::string::String", "alloc::string::String")

# role -> {wire name: (optional, kind or role of the value)}; "*" stands for the kind-specific members
SCHEMA = {
    "directive": {"span": (1, "span"), "date": (0, "date"), "tags": (1, ""), "links": (1, ""), "metadata": (1, "metavalue"), "*": (0, "variant")},
    "transaction": {"flag": (0, "text"), "payee": (1, "text"), "narration": (1, "text"), "postings": (0, "posting")},
    "price directive": {"cur": (0, ""), "price": (0, "price")},
    "balance": {"acc": (0, ""), "units": (0, ""), "cur": (0, ""), "tolerance": (1, "")},
    "open": {"acc": (0, ""), "currencies": (1, ""), "booking": (1, "")},
    "close": {"acc": (0, "")},
    "commodity": {"cur": (0, "")},
    "pad": {"acc": (0, ""), "source": (0, "")},
    "document": {"acc": (0, ""), "path": (0, "text")},
    "note": {"acc": (0, ""), "comment": (0, "text")},
    "event": {"type": (0, "text"), "description": (0, "text")},
    "query": {"name": (0, "text"), "content": (0, "text")},
    "custom": {"type": (0, "text"), "values": (0, "metavalue")},
    "posting": {"span": (1, "span"), "flag": (1, "text"), "acc": (0, ""), "units": (1, ""), "cur": (1, ""), "cost-spec": (1, "cost spec"),
                "price-spec": (1, "price spec"), "tags": (1, ""), "links": (1, ""), "metadata": (1, "metavalue")},
    "cost spec": {"per-unit": (1, ""), "total": (1, ""), "cur": (1, ""), "date": (1, "date"), "label": (1, "text"), "merge": (2, "")},
    "price spec": {"per-unit": (1, ""), "total": (1, ""), "cur": (1, "")},
    "price": {"per-unit": (0, ""), "total": (1, ""), "cur": (0, "")},
    "report": {"message": (0, "text"), "reason": (0, "text"), "span": (0, "span"), "contexts": (1, "text"), "related": (1, "text"), "annotation": (1, "text")},
    "synthetic span": {"name": (0, "text"), "content": (0, "text")},
    # written only
    "booked directive": {"idx": (0, ""), "date": (0, "date"), "tags": (1, ""), "links": (1, ""), "metadata": (1, ""), "*": (0, "booked variant")},
    "booked transaction": {"flag": (0, ""), "payee": (1, ""), "narration": (1, ""), "postings": (0, "booked posting")},
    "booked posting": {"idx": (1, ""), "flag": (1, ""), "acc": (0, ""), "units": (0, ""), "cur": (0, ""), "cost": (1, "cost"), "price": (1, "booked price"),
                       "tags": (1, ""), "links": (1, ""), "metadata": (1, "")},
    "cost": {"date": (0, "date"), "per-unit": (0, ""), "total": (0, ""), "cur": (0, ""), "label": (1, ""), "merge": (2, "")},
    "booked price": {"per-unit": (0, ""), "total": (1, ""), "cur": (0, "")},
    "indexed report": {"reason": (0, ""), "idx": (0, ""), "related": (1, ""), "annotation": (1, "")},
    "source": {"file-name": (1, ""), "start-line": (0, ""), "end-line": (0, ""), "content": (0, "")},
}
VARIANTS = {"txn": "transaction", "price": "price directive", "balance": "balance", "open": "open", "close": "close", "commodity": "commodity", "pad": "pad",
            "document": "document", "note": "note", "event": "event", "query": "query", "custom": "custom"}
ROOTS = ("directive", "booked directive", "report", "synthetic span", "indexed report", "source")
WRITTEN_ONLY = ("booked directive", "booked transaction", "booked posting", "cost", "booked price", "indexed report", "source")


class Types:
    """the types of the crate in each role of the protocol"""

    def __init__(self, ctx):
        self.ctx, self.W, self.p = ctx, ctx.W, ctx.prog
        self.role = {}
        self.why = []
        names = {}
        for t in self.W.serbody:
            a = self.p.adts.get(t)
            if a is None or a["kind"] == "enum":
                continue
            ms = self.W.members(t)
            if ms:
                names[t] = {m[0].a[0] if m[0] is not None and m[0].op == "str" else "*" for m in ms}
        self.names = names
        for role in ROOTS:
            want = set(SCHEMA[role])
            # what is written under other names is told apart by everything else
            best = sorted(((len(want & n) - len(n - want), role not in WRITTEN_ONLY and t in self.W.debody, t) for t, n in names.items()
                           if (t in self.W.debody) == (role not in WRITTEN_ONLY) and t not in self.role.values()), reverse=True)
            if best and best[0][0] >= max(1, len(want) - 2):
                self.role[role] = best[0][2]
                self.follow(role, best[0][2])

    def follow(self, role, t):
        todo = [(role, t)]
        while todo:
            role, t = todo.pop()
            if role in ("variant", "booked variant"):
                a = self.p.adts.get(t)
                tags = self.W.tags(t) or {}
                for v in (a["variants"] if a else ()):
                    tg = tags.get(v["name"])
                    w = tg[2].a[0] if tg and tg[2] is not None and tg[2].op == "str" else None
                    r2 = VARIANTS.get(w)
                    if r2 and v["fields"]:
                        ty = tyname(v["fields"][0][1])
                        if role == "booked variant":
                            r2 = "booked transaction" if w == "txn" else "booked " + r2 if ty not in self.role.values() else r2
                        if r2 not in self.role:
                            self.role[r2] = ty
                            todo.append((r2, ty))
                continue
            for n, f, ty in self.fields(t):
                k = SCHEMA.get(role, {}).get(n, (0, ""))[1]
                x = self.core(ty)
                if k in SCHEMA or k in ("variant", "booked variant", "span", "metavalue"):
                    if x in self.p.adts and k not in self.role:
                        self.role[k] = x
                        todo.append((k, x))

    def fields(self, t):
        """[(wire name written, field, type of the field)]"""
        a = self.p.adts.get(t)
        out = []
        if a is None or not a["variants"]:
            return out
        tys = dict((f, ty) for f, ty in a["variants"][0]["fields"])
        for n, v, c, site in self.W.members(t) or ():
            f = field_of(self.W.unwrap_with(v), self.W.v)
            if f is None and v is K(1):
                f = field_of(c, self.W.v)
            if f in tys:
                out.append((n.a[0] if n is not None and n.op == "str" else "*", f, tys[f]))
        return out

    def core(self, ty):
        n = tyname(ty)
        while n == OPT or n.endswith(("::Vec", "::Box", "HashSet", "HashMap", "BTreeMap", "BTreeSet")):
            a = tyargs(ty)
            if not a:
                return n
            ty = a[-1] if n.endswith("Map") else a[0]
            n = tyname(ty)
        return n


def field_of(v, base):
    """field f for the term base.f, or the unwrapped option of it"""
    if v.op == "fld" and v.a[2] is base:
        return v.a[1]
    if v.op == "fld" and v.a[0] == "Some" and v.a[2].op == "fld" and v.a[2].a[2] is base:
        return v.a[2].a[1]
    return None


def lifetimes(s):
    return re.sub(r"'\w+", "'_", s or "").replace("<'_>", "").replace("'_, ", "").replace("&'_ ", "&")


def C09(ctx, r):
    r.explain = ("Per object of the protocol: the code that serialises it is evaluated and yields, for each member, its wire name, the field it comes from and the condition "
                 "under which it is written; the code that deserialises it is evaluated and yields, for each wire name, the field it goes to and what the field is when the "
                 "name is missing. Names must be the fixed ones and lead to the field they come from, an absent field must be left out and may be missing, every other one is "
                 "always written; the tag and the names of directive kinds, the elements of spans and the date format must be the same in both directions.")
    T = Types(ctx)
    W, p = ctx.W, ctx.prog
    for role, t in sorted(T.role.items()):
        base = role[7:] if role.startswith("booked ") and role not in SCHEMA else role
        if base not in SCHEMA:
            continue
        schema = SCHEMA[base]
        writes(ctx, r, T, role, t, schema)
        if role not in WRITTEN_ONLY and not role.startswith("booked "):
            reads(ctx, r, T, role, t, schema)
    for role in ("variant", "booked variant"):
        if role in T.role:
            kinds(ctx, r, T, role, T.role[role])
    if "span" in T.role:
        span(ctx, r, T.role["span"])
    for role in ("directive", "transaction", "posting", "booked directive"):
        if role not in T.role and not r.violations:
            raise facts.CannotDecide("the type of a %s was not found among the types written" % role)
    if r.violations:
        return
    r.floor("members written", 60, "members written")
    r.floor("members read", 45, "members read")
    r.floor("kinds", 24, "directive kinds")


def flat_names(T, t):
    """wire names of a type including those of flattened members, which are told by their own type"""
    out = set(T.names.get(t, ()))
    if "*" in out:
        for n, f, ty in T.fields(t):
            if n == "*" and T.core(ty) in T.names:
                out |= flat_names(T, T.core(ty))
    return out


def writes(ctx, r, T, role, t, schema):
    W = ctx.W
    s = W.writes(t)
    if s is None or s.undecided:
        r.undecide("how a %s is written" % role)
        return
    ms = W.members(t) or []
    tys = dict(T.p.adts[t]["variants"][0]["fields"]) if t in T.p.adts else {}
    inner = set()
    for n, f, ty in T.fields(t):
        if n == "*" and "*" not in schema:
            inner |= flat_names(T, T.core(ty))
    seen = {}
    for n, v, c, site in ms:
        if n is not None and n.op != "str":
            r.undecide("%s: name of a member: %s" % (role, sh(n)))
            continue
        name = n.a[0] if n is not None else "*"
        if name not in schema:
            continue
        r.count("members written")
        opt = schema[name][0]
        u = W.unwrap_with(v)
        f = field_of(u, W.v) or (field_of(c, W.v) if v is K(1) and c is not TRUE else None)
        if name in seen and name != "*":
            r.violate("%s:%s written twice" % (role, name), "a %s has its member %s written twice" % (role, name), where(site))
        seen[name] = f
        if f is None or f not in tys:
            r.undecide("%s: member %s is written as %s" % (role, name, sh(v)))
            continue
        isopt = tyname(tys[f]) == OPT
        some = None
        for x in subterms(c):
            if x.op == "discr" and x.a[0] == OPT and field_of(x.a[1], W.v) == f:
                some = x
        if isopt:
            if c is TRUE and not (u.op == "fld" and u.a[0] == "Some"):
                r.violate("%s:%s null" % (role, name), "an absent %s of a %s is written as null instead of being left out" % (name, role), where(site))
            elif some is not None:
                if restrict(c, some, "Some") is not TRUE and plain_test(restrict(c, some, "Some")):
                    r.violate("%s:%s dropped" % (role, name), "the %s of a %s is not always written when there is one: %s" % (name, role, sh(c)), where(site))
                elif restrict(c, some, "Some") is not TRUE:
                    cond_unknown(r, role, name, c, site)
                if restrict(c, some, "None") is not FALSE:
                    r.violate("%s:%s null" % (role, name), "an absent %s of a %s is written" % (name, role), where(site))
            elif c is not TRUE:
                cond_unknown(r, role, name, c, site)
        elif opt == 2:
            if v is K(1):
                if field_of(c, W.v) != f:
                    r.violate("%s:%s" % (role, name), "the flag %s of a %s is written as true when %s" % (name, role, sh(c)), where(site))
            elif c is not TRUE and restrict(c, u, True) is not TRUE and restrict(c, u, 1) is not TRUE:
                r.violate("%s:%s" % (role, name), "the flag %s of a %s is left out when it is set: %s" % (name, role, sh(c)), where(site))
        elif c is not TRUE:
            cond_unknown(r, role, name, c, site)
    for name in schema:
        if name != "*" and name not in seen and name not in inner:
            r.violate("%s:%s not written" % (role, name), "a %s is written without its member %s (members: %s)" % (role, name, ", ".join(sorted(T.names.get(t, ())))),
                      where(ms[0][3]) if ms else None)
    T.written = getattr(T, "written", {})
    T.written[role] = seen


def plain_test(c):
    """only tests of the value itself that can go either way"""
    return all(x.a[0].split("::")[-1] in ("is_zero", "is_empty", "is_sign_negative", "is_sign_positive", "len") for x in subterms(c) if x.op == "call")


def cond_unknown(r, role, name, c, site):
    if plain_test(c):
        r.violate("%s:%s dropped" % (role, name), "the %s of a %s is only written when %s" % (name, role, sh(c)), where(site))
    else:
        r.undecide("%s: member %s is written when %s" % (role, name, sh(c)))


def reads(ctx, r, T, role, t, schema):
    W = ctx.W
    rec = W.record(t)
    if rec is None:
        r.undecide("how a %s is read" % role)
        return
    site = where(rec["site"])
    tys = dict(T.p.adts[t]["variants"][0]["fields"])
    byname = {n: f for f, d in rec["fields"].items() for n in d["names"]}
    for name, (opt, kind) in schema.items():
        if name == "*":
            r.count("members read")
            if not any(x[0] and T.core(x[1]) == T.role.get(kind) for x in rec["rest"].values()):
                r.undecide("%s: where the members of its kind are read" % role)
            continue
        r.count("members read")
        f = byname.get(name)
        w = T.written.get(role, {}).get(name)
        if f is None:
            r.violate("%s:%s not read" % (role, name), "the member %s of a %s is not read (names read: %s)" % (name, role, ", ".join(sorted(byname))), site)
            continue
        if w is not None and f != w:
            r.violate("%s:%s swapped" % (role, name), "the member %s of a %s is written from %s and read into %s" % (name, role, w, f), site)
        d = rec["fields"][f]
        isopt = tyname(tys[f]) == OPT
        if isopt and d["absent"] == "error":
            r.violate("%s:%s required" % (role, name), "a %s without %s is written without it but refused when read" % (role, name), site)
        elif isopt and not is_adt(d["absent"], OPT, "None"):
            (r.violate if is_adt(d["absent"], OPT, "Some") else lambda k, m, s: r.undecide(m))(
                "%s:%s default" % (role, name), "a %s without %s is read as having %s" % (role, name, sh(d["absent"])), site)
        elif opt == 2:
            if isinstance(d["absent"], str):
                r.violate("%s:%s required" % (role, name), "a %s without %s is written without it but refused when read" % (role, name), site)
            elif d["absent"] not in (K(0), FALSE):
                (r.violate if d["absent"] in (K(1), TRUE) else lambda k, m, s: r.undecide(m))(
                    "%s:%s default" % (role, name), "a %s without %s is read as having it %s" % (role, name, sh(d["absent"])), site)
        put = d["put"]
        direct = put is not None and is_adt(put, OPT, "Some") and (put.a[3].op == "call" or (put.a[3].op == "fld" and put.a[3].a[1] == "value" and put.a[3].a[2].op == "call"))
        if not direct:
            r.undecide("%s: member %s is read as %s" % (role, name, sh(put) if put is not None else "?"))
            continue
        if kind == "date":
            dates(ctx, r, T, role, t, name, f, d, site)


def fmt_list(W, desc):
    """the elements of a date format, or None"""
    t = desc
    for _ in range(4):
        if t.op != "named":
            break
        for b in W.p.bodies.values():
            if b["path"] == t.a[0] and b["kind"] == "const":
                outs = Interp(W.p).entry(b, [])
                if len(outs) == 1:
                    t = outs[0][1]
                break
        else:
            return None
    if t.op == "call" and len(t.a) == 1:
        for b in W.p.bodies.values():
            if b["path"].endswith("::" + t.a[0]) and b["argc"] == 0:
                outs = Interp(W.p).entry(b, [])
                return fmt_list(W, outs[0][1]) if len(outs) == 1 and outs[0][1] is not t else None
    if t.op != "seq":
        return None
    out = [W.desc_item(x) for x in t.a]
    return out if all(x is not None for x in out) else None


def dates(ctx, r, T, role, t, name, f, d, site):
    W = ctx.W
    wd = rdf = None
    for n, v, c, s in W.members(t) or ():
        if n is not None and n.op == "str" and n.a[0] == name:
            k = W.with_key(t, v)
            if k:
                for x in W.ser[k].ops:
                    for a in x["args"]:
                        for y in subterms(a):
                            if y.op == "call" and y.a[0] == "Date::format" and len(y.a) == 3:
                                wd = fmt_list(W, y.a[2])
    pr = parsers(W, d["ty"])
    fs = {tuple(fmt_list(W, x) or ()) for x in pr}
    r.count("date formats")
    if wd is None or len(fs) != 1 or () in fs:
        r.undecide("%s: date format of %s" % (role, name))
        return
    rdf = list(next(iter(fs)))
    if rdf != wd:
        r.violate("%s:%s format" % (role, name), "the %s of a %s is written as %s and read as %s" % (name, role, "".join(wd), "".join(rdf)), site)


def reachable_reading(W, ty):
    """bodies of this crate that read a value of the given type (a generated wrapper or function)"""
    seen, todo = {}, []
    key = re.sub(r"<'[^<>]*>$", "", ty or "")

    def visitors(s):
        """bodies of the visitor implementations named in a type"""
        n = tyname(s)
        for i, b in W.p.bodies.items():
            if b["kind"] == "poly" and b.get("impl_trait", "").endswith("::Visitor") and tyname(b.get("impl_self") or "") == n and n:
                yield i, b
    for i, b in W.p.bodies.items():
        if b["kind"] == "poly" and b.get("impl_trait", "").endswith("::Deserialize") and re.sub(r"<'[^<>]*>$", "", b.get("impl_self") or "") == key:
            todo.append((i, b))
    bypath = {}
    for i, b in W.p.bodies.items():
        if b["kind"] == "poly":
            bypath.setdefault(b["path"], (i, b))
    while todo:
        i, b = todo.pop()
        if i in seen:
            continue
        seen[i] = b
        for blk in b["blocks"]:
            t = blk["t"]
            if t and t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                fn = t[1][1]["fn"]
                if fn["path"] in bypath:
                    todo.append(bypath[fn["path"]])
                for g in fn["gargs"]:
                    todo += list(visitors(g))
    return list(seen.values())


def parsers(W, ty):
    """format descriptions with which dates are parsed when a value of this type is read"""
    out = set()
    for b in reachable_reading(W, ty):
        if "::visit_" not in b["path"] and not any("Date::parse" in str(blk["t"]) for blk in b["blocks"]):
            continue
        I = Interp(W.p)
        try:
            I.entry(b, [mk("param", "a%d" % i) for i in range(b["argc"])])
        except Exception:
            continue
        for c in I.calls:
            if c["name"] == "Date::parse" and len(c["args"]) == 2:
                out.add(c["args"][1])
    return out


def kinds(ctx, r, T, role, t):
    W = ctx.W
    tags = W.tags(t)
    if not tags:
        r.undecide("how the %s is written" % role)
        return
    rd = W.variant_reads(t) if role == "variant" else None
    if role == "variant" and rd is None:
        r.undecide("how the kind of a directive is read")
    back = {v: w for w, v in rd[1].items()} if rd else {}
    names = {}
    for v in UNIV.get(t) or sorted(tags):
        if v not in tags:
            r.undecide("%s %s: how it is written" % (role, v))
            continue
        form, member, name, payload, site = tags[v]
        r.count("kinds")
        if form not in ("tagged", "unit-tagged") or member is None or member.op != "str" or name is None or name.op != "str":
            r.undecide("%s %s is written as %s" % (role, v, form))
            continue
        if member.a[0] != "dct":
            r.violate("%s:tag" % role, "the kind of a directive is written as member %s instead of dct" % member.a[0], where(site))
        if rd and rd[0] is not None and rd[0] != member.a[0]:
            r.violate("variant:tag read", "the kind of a directive is written as member %s and read from member %s" % (member.a[0], rd[0]), where(site))
        if name.a[0] in names:
            r.violate("%s:%s" % (role, name.a[0]), "%s and %s are written as the same kind %s" % (v, names[name.a[0]], name.a[0]), where(site))
        names[name.a[0]] = v
        if rd:
            if rd[1].get(name.a[0]) != v:
                r.violate("variant:%s" % name.a[0], "a directive %s is written as kind %s, which is read as %s" % (v, name.a[0], rd[1].get(name.a[0], "an error")), where(site))
    for w in VARIANTS:
        if w not in names:
            r.violate("%s:%s missing" % (role, w), "no directive is written as kind %s (kinds: %s)" % (w, ", ".join(sorted(names))), None)


def span(ctx, r, t):
    W = ctx.W
    s = W.writes(t)
    els = [field_of(c["args"][1], W.v) for c in (s.ops if s and not s.undecided else ()) if c["name"].split("::")[-1] == "serialize_element"]
    vs = [b for b in W.p.bodies.values() if b["kind"] == "poly" and b["path"].endswith("::visit_seq") and t in W.debody and W.debody[t]["path"] + "::" in b["path"]]
    r.count("spans")
    if len(els) != 3 or None in els or len(vs) != 1:
        r.undecide("how spans are written and read")
        return
    I = Interp(W.p)
    I.hooks = ReadHooks()
    outs = I.entry(vs[0], [UNIT, mk("param", "map")])
    good = None
    for st, o in outs:
        for x in subterms(o):
            if is_adt(x, t):
                good = x
    if good is None:
        r.undecide("how spans are read")
        return
    at = {}
    for f in good.a[2]:
        v = adt_field(good, f)
        n = [x for x in subterms(v) if x.op == "call" and x.a[0] == "next_element"]
        inner = [x for x in n if not any(x is not y and any(z is x for z in subterms(y)) for y in n)]
        d = 0
        if len(inner) == 1:
            x = inner[0].a[1]
            while x.op == "after":
                d, x = d + 1, x.a[2]
            at[d] = f
    if len(at) != 3:
        r.undecide("how spans are read")
    elif [at.get(i) for i in range(3)] != els:
        r.violate("span", "the elements of a span are written as %s and read as %s" % (els, [at.get(i) for i in range(3)]), where((vs[0]["path"],) + tuple(vs[0]["span"][:2])))


# ---- free text ----------------------------------------------------------------------------------
def C11(ctx, r):
    r.explain = ("The type that the generated deserialisation code asks for is read off for every member of requests that holds free text. It must be an owned or "
                 "copy-on-write string: a borrowed string or a character refuses text with escape sequences.")
    T = Types(ctx)
    W = ctx.W
    for role, t in sorted(T.role.items()):
        if role in WRITTEN_ONLY or role.startswith("booked ") or role not in SCHEMA:
            continue
        texts = [n for n, (o, k) in SCHEMA[role].items() if k == "text"]
        if not texts:
            continue
        rec = W.record(t)
        if rec is None:
            r.undecide("how a %s is read" % role)
            continue
        byname = {n: f for f, d in rec["fields"].items() for n in d["names"]}
        for n in texts:
            f = byname.get(n)
            if f is None:
                r.undecide("%s: member %s is not read" % (role, n))
                continue
            r.count("members")
            ty = rec["fields"][f]["ty"] or rec["fields"][f]["type"]
            text(W, r, "%s:%s" % (role, n), "the member %s of a %s" % (n, role), ty, where(rec["site"]))
    # metadata strings
    mv = T.role.get("metavalue")
    got = meta_reads(ctx, mv) if mv else None
    if not got:
        r.undecide("how metadata values are read")
    else:
        for c, keys in got["values"]:
            if "String" in keys:
                r.count("members")
                text(W, r, "metadata:string", "the string of a metadata value", c["fn"]["gargs"][1], where(c["site"]))
    r.floor("members", 18, "free-text members")


def text(W, r, key, what, ty, site):
    n = tyname(ty)
    if ty.startswith("&"):
        if n == "str":
            r.violate(key, "%s is read as a borrowed string, which refuses text with escape sequences" % what, site)
        else:
            r.undecide("%s is read as %s" % (what, ty))
        return
    if n == "char":
        r.violate(key, "%s is read as a single character" % what, site)
        return
    if n in STRING or (n in COW and tyargs(ty) == ["str"]):
        return
    a = [x for x in tyargs(ty)]
    if n == OPT or n.endswith(("::Vec", "::Box", "::Arc", "::Rc")):
        if a == ["str"]:
            return
        text(W, r, key, what, a[0], site)
        return
    if ty.startswith("("):
        parts = tyargs("x<" + ty[1:-1] + ">")
        t = [x for x in parts if "str" in x or "String" in x or "char" == x]
        for x in t:
            text(W, r, key, what, x, site)
        if not t:
            r.undecide("%s is read as %s" % (what, ty))
        return
    bodies = reachable_reading(W, ty)
    names = []
    asked = []
    for b in bodies:
        if b.get("impl_trait", "").endswith("::Visitor"):
            names.append((tyname(b["impl_self"]), b["path"].split("::")[-1]))
        for blk in b["blocks"]:
            t = blk["t"]
            if t and t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                fn = t[1][1]["fn"]
                if fn["path"].endswith("::borrow_cow_str") or fn["path"].endswith("::borrow_cow_bytes"):
                    return
                if fn["path"].endswith("::Deserialize::deserialize"):
                    asked += [g for g in fn["gargs"][:1]]
    if bodies and asked and not names:
        for g in asked:
            if tyname(g) != tyname(ty):
                text(W, r, key, what, g, site)
        return
    vis = {}
    for v, m in names:
        vis.setdefault(v, set()).add(m)
    for v, ms in vis.items():
        if "visit_borrowed_str" in ms and not ms & {"visit_str", "visit_string"}:
            r.violate(key, "%s is read by a visitor that only takes borrowed strings" % what, site)
            return
        if "visit_char" in ms and not ms & {"visit_str", "visit_string"}:
            r.violate(key, "%s is read by a visitor that only takes a character" % what, site)
            return
    r.undecide("%s is read as %s" % (what, ty))


# ---- metadata values ------------------------------------------------------------------------------
def meta_visitors(ctx, t):
    W = ctx.W
    if t not in W.debody:
        return {}
    pre = W.debody[t]["path"] + "::"
    return {b["path"].split("::")[-1]: b for b in W.p.bodies.values()
            if b["kind"] == "poly" and pre in b["path"] and b.get("impl_trait", "").endswith("::Visitor")}


def meta_reads(ctx, t):
    vs = meta_visitors(ctx, t)
    if "visit_map" not in vs:
        return None
    I = Interp(ctx.prog)
    I.hooks = ReadHooks()
    outs = I.entry(vs["visit_map"], [UNIT, mk("param", "map")])
    values = []
    for c in I.calls:
        if c["name"] == "MapAccess::next_value":
            keys = {str(l) for s, l in (forced(c["pc"]).items() if c["pc"] is not TRUE else ()) if s.op == "discr" and s.a[0] != OPT and s.a[0] != RES}
            values.append((c, keys))
    return {"values": values, "outs": outs, "I": I}


META = {"String": ["string"], "Currency": ["cur"], "Account": ["acc"], "Tag": ["tag"], "Link": ["link"], "Date": ["date"], "Bool": ["bool"], "Number": ["number"],
        "Amount": ["units", "cur"], "Null": []}


class Script(dict):
    """the entries of an object, one after the other"""

    def __init__(self, entries):
        self.e = entries
        self.asked = []

    def get(self, name, d=None):
        if name in ("MapAccess::next_key", "MapAccess::next_value", "MapAccess::next_entry", "MapAccess::next_key_seed", "MapAccess::next_value_seed"):
            def f(I, st, a, fn, site):
                m = I.read_ref(st, a[0])
                i = m.a[0] if m.op == "script" else 0
                e = self.e[i] if i < len(self.e) else None
                if name.startswith("MapAccess::next_key"):
                    return ok(adt(OPT, "None", (), ()) if e is None else some(e[0]))
                I.write_ref(st, a[0], mk("script", i + 1))
                if name == "MapAccess::next_entry":
                    return ok(adt(OPT, "None", (), ()) if e is None else some(tup(e[0], e[1])))
                self.asked.append((i, fn["gargs"][1] if len(fn["gargs"]) > 1 else "", site))
                return ok(e[1]) if e else err(call("no value"))
            return f
        return d


def klass(ty):
    n = tyname(ty)
    if n in ("str",) + STRING or (n in COW and tyargs(ty) == ["str"]):
        return "text"
    if n.endswith("Decimal"):
        return "decimal"
    if n in ("f32", "f64"):
        return "float"
    if n == "bool" or re.match(r"[iu](8|16|32|64|128|size)$", n):
        return n
    return None


def C12(ctx, r):
    r.explain = ("For each kind of metadata value, the members written are read off the evaluated serialisation code; the deserialisation code is then evaluated on exactly "
                 "those members, in each order, and must yield the same kind with the same content.")
    T = Types(ctx)
    W, p = ctx.W, ctx.prog
    t = T.role.get("metavalue")
    if t is None:
        raise facts.CannotDecide("the type of metadata values was not found")
    vs = meta_visitors(ctx, t)
    if "visit_map" not in vs:
        raise facts.CannotDecide("the visitor that reads metadata values was not found")
    ms = W.members(t)
    if ms is None:
        raise facts.CannotDecide("how metadata values are written: %s" % (W.writes(t).undecided,))
    d = mk("discr", t, W.v)
    fields = {v["name"]: v["fields"] for v in p.adts[t]["variants"]}
    for v in fields:
        if v not in META:
            r.undecide("metadata value %s" % v)
            continue
        r.count("kinds")
        ents, bad = [], False
        for n, val, c, site in ms:
            c2 = restrict(c, d, v) if c is not TRUE else TRUE
            if c2 is FALSE:
                continue
            n2, val2 = restrict(n, d, v), restrict(val, d, v)
            j = ctx.J(n2) if n2.op != "str" else n2
            if j.op != "str":
                bad = True
                r.undecide("metadata %s: name of a member: %s" % (v, sh(n2)))
                continue
            ents.append((j.a[0], val2, n2, site, c2))
        if bad:
            continue
        here = where(ents[0][3] if ents else vs["visit_map"]["path"] and (vs["visit_map"]["path"],) + tuple(vs["visit_map"]["span"][:2]))
        if sorted(e[0] for e in ents) != sorted(META[v]):
            r.violate("%s:members" % v, "a metadata value %s is written with the members %s instead of %s" % (v, [e[0] for e in ents], META[v]), here)
            continue
        if v == "Null":
            nul(ctx, r, t, vs, W)
            continue
        # content of the members
        for name, val, n2, site, c2 in ents:
            r.count("members")
            x = wrote(W, val)
            ix = {"Amount": {"units": "0", "cur": "1"}}.get(v, {}).get(name, "0")
            if x is not fld(v, ix, W.v) and not (x.op == "fld" and x.a[0] == v and x.a[1] == ix):
                if known_value(x):
                    r.violate("%s:%s" % (v, name), "member %s of a metadata value %s is written as %s" % (name, v, sh(val)), where(site))
                else:
                    r.undecide("metadata %s: member %s is written as %s" % (v, name, sh(val)))
        # reading them back, in each order
        for order in ([ents] if len(ents) < 2 else [ents, ents[::-1]]):
            keys = []
            for name, val, n2, site, c2 in order:
                keys.append(readkey(ctx, W, n2, name))
            if None in keys:
                r.undecide("metadata %s: how its member names are read" % v)
                continue
            missing = [o[0] for o, k in zip(order, keys) if k is False]
            if missing:
                r.violate("%s:name" % v, "the member %s of a metadata value %s is not among the names read" % (missing[0], v), here)
                continue
            sc = Script([(k, o[1]) for k, o in zip(keys, order)])
            I = Interp(p)
            I.hooks = sc
            outs = I.entry(vs["visit_map"], [UNIT, mk("script", 0)])
            r.count("readings")
            res = sel([(st.pc, o) for st, o in outs])
            res = unparse(W, res)
            verdict(ctx, r, T, t, v, order, res, here, W)
            for i, ty, site in sc.asked:
                if i < len(order):
                    a, b = klass(ty), written_class(fields[v], order[i][1], v)
                    if a and b and a != b:
                        r.violate("%s:%s type" % (v, order[i][0]), "member %s of a metadata value %s is written as %s and read as %s" % (order[i][0], v, b, a), where(site))
    r.floor("kinds", 10, "kinds of metadata values")


def written_class(fs, val, v):
    if val.op == "fld" and val.a[0] == v:
        for f, ty in fs:
            if f == val.a[1]:
                return klass(ty)
    if val.op == "fld" and val.a[0] == "Ok" and val.a[2].op == "call" and val.a[2].a[0] == "Date::format":
        return "text"
    if val.op == "call" and val.a[0].split("::")[-1] in ("to_string", "format"):
        return "text"
    return None


def wrote(W, t):
    """the value of which t is the written form"""
    if t.op == "fld" and t.a[0] == "Ok" and t.a[2].op == "call" and t.a[2].a[0] == "Date::format" and fmt_list(W, t.a[2].a[2]) == ["Year", "-", "Month", "-", "Day"]:
        return t.a[2].a[1]
    return t


def known_value(x):
    return all(y.op in ("fld", "param", "str", "int", "k", "adt", "tup", "discr", "case") or (y.op == "call" and y.a[0].split("::")[-1] in ("format", "to_string", "NOT"))
               for y in subterms(x))


def unparse(W, t):
    """parsing what was formatted in the same format gives the date back"""
    def f(x):
        if x.op == "call" and x.a[0] == "Date::parse" and len(x.a) == 3:
            y = x.a[1]
            if y.op == "fld" and y.a[0] == "Ok" and y.a[2].op == "call" and y.a[2].a[0] == "Date::format":
                a, b = fmt_list(W, x.a[2]), fmt_list(W, y.a[2].a[2])
                if a is not None and a == b and a == ["Year", "-", "Month", "-", "Day"]:
                    return ok(y.a[2].a[1])
        return x
    from lb.judge import rewrite
    return rewrite(t, f)


def readkey(ctx, W, key, name):
    """the value that a member name is read as: False when it is refused, None when unknown"""
    if is_adt(key):
        rd = W.reads(key.a[0])
        if rd is None or not rd.get("variants"):
            return None
        v = rd["variants"].get(name)
        return adt(key.a[0], v, (), ()) if v else False
    return key


def nul(ctx, r, t, vs, W):
    tags = W.tags(t) or {}
    form = tags.get("Null", (None,))[0]
    if form != "null":
        r.undecide("how a null metadata value is written")
        return
    b = vs.get("visit_unit")
    if b is None:
        r.violate("Null:read", "a null metadata value is written as null, which is refused when read", None)
        return
    I = Interp(ctx.prog)
    outs = I.entry(b, [UNIT])
    r.count("readings")
    for st, o in outs:
        if not (is_adt(o, RES, "Ok") and is_adt(o.a[3], t, "Null")):
            if is_adt(o, RES) :
                r.violate("Null:read", "null is read as %s" % sh(o), where((b["path"],) + tuple(b["span"][:2])))
            else:
                r.undecide("what null is read as: %s" % sh(o))


def verdict(ctx, r, T, t, v, order, res, here, W):
    names = "+".join(o[0] for o in order)
    if is_adt(res, RES, "Err"):
        r.violate("%s:read %s" % (v, names), "a metadata value %s is written with the members %s, which are refused when read" % (v, names), here)
        return
    if not (is_adt(res, RES, "Ok") and is_adt(res.a[3], t)):
        r.undecide("metadata members %s are read as %s" % (names, sh(res)))
        return
    x = res.a[3]
    if x.a[1] != v:
        r.violate("%s:read %s" % (v, names), "a metadata value %s is written with the members %s, which are read as %s" % (v, names, x.a[1]), here)
        return
    for f in x.a[2]:
        y = adt_field(x, f)
        if y is not fld(v, f, W.v):
            if y.op == "fld" and y.a[2] is W.v or known_value(y):
                r.violate("%s:content %s" % (v, names), "the content of a metadata value %s is read back as %s" % (v, sh(y)), here)
            else:
                r.undecide("the content of a metadata value %s is read back as %s" % (v, sh(y)))
