"""C26 and C27: the Clojure client against the server."""
import os
import re
from engine.terms import *
from lb import facts
from lb.clj import Client, Eval, T, CMap, Seq, Alt, XF, Kw, Sym, Vec, Lst, SetF, MapF, Fn, Prim, CSet, Thrown, Stop, Env, key, fkey, show, GONE, over, elem
from rules.server_rules import member, method_variants
from rules.wire_rules import Types, SCHEMA, VARIANTS, flat_names, tyname

POD = "pod"
FUNCS = {"status": "status", "plugins": "parser.plugins", "directives": "parser.directives", "options": "parser.options", "format-errors": "parser.format-errors",
         "format-warnings": "parser.format-warnings", "resolve-spans": "parser.resolve-spans", "create-synthetic-spans": "parser.create-synthetic-spans", "book": "book"}
PARAMS = {"parser.format-errors", "parser.format-warnings", "parser.resolve-spans", "parser.create-synthetic-spans", "book"}
SPANNED, INDEXED = "spanned-reports", "indexed-reports"


def K_(s):
    return Kw(s)


# ---- what the server offers ---------------------------------------------------------------------------------------------------------------------
class Offer:
    def __init__(self, ctx):
        self.ctx = ctx
        self.T = Types(ctx)
        _, self.vs = method_variants(ctx)
        self.result, self.errors, self.names = {}, {}, {}
        self.top, self.err = set(), set()
        for n, v in self.vs.items():
            for src in ("Ok", "Err"):
                for p in ("Ok", "Err"):
                    for a, pc, j, f in ctx.answers(method=v, sources=src, parse=p):
                        if j is None:
                            continue
                        if j.op == "obj":
                            self.top |= set(obj_items_(j))
                        for l in leaves_(member(j, "result")):
                            if l.op != "absent" and (src, p) == ("Ok", "Ok"):
                                self.result.setdefault(n, []).append(l)
                        for l in leaves_(member(j, "error")):
                            if l.op == "obj":
                                d = obj_items_(l)
                                self.err |= set(d)
                                code = d.get("code")
                                code = code.a[0] if code is not None and code.op == "k" else None
                                self.errors.setdefault(n, {}).setdefault((src, p), set()).add((code, data_kind(d.get("data"))))

    def role(self, r):
        t = self.T.role.get(r)
        return flat_names(self.T, t) if t else None

    def items(self, n):
        """names of the elements of a result that is a list"""
        out = set()
        for l in self.result.get(n, ()):
            for x in leaves_(l):
                if x.op == "comp":
                    x = x.a[2]
                for e in x.a if x.op in ("seq", "arr") else ():
                    for y in leaves_(e) if hasattr(e, "op") else ():
                        if y.op == "obj":
                            out |= set(obj_items_(y))
        return out or None

    def members(self, n):
        out = set()
        for l in self.result.get(n, ()):
            if l.op == "obj":
                out |= set(obj_items_(l))
        return out or None


def obj_items_(t):
    from lb.judge import obj_items
    return obj_items(t)


def leaves_(t):
    from lb.judge import leaves
    return leaves(t) if not callable(getattr(t, "leaves", None)) else t.leaves()


def data_kind(d):
    """are the reports of an error resolved to spans or indexed"""
    if d is None or d.op == "absent":
        return None
    for x in leaves_(d):
        if x.op == "comp":
            for y in subterms(x):
                if y.op == "obj":
                    ks = set(obj_items_(y))
                    if "span" in ks and "message" in ks:
                        return SPANNED
                    if "idx" in ks:
                        return INDEXED
        if x.op == "fld" and x.a[1] == "errors" or any(y.op == "fld" and y.a[1] == "errors" for y in subterms(x)):
            return INDEXED
    return "other"


# ---- the client under evaluation ----------------------------------------------------------------------------------------------------------------
class Run:
    """evaluation of client functions against any answer that the server can give"""

    def __init__(self, off, client):
        self.off, self.c = off, client
        self.reads = {}
        pod = [n for n in client.ns.values() if n.name.split(".")[-1] == POD]
        if not pod:
            raise facts.CannotDecide("no namespace for the pod in the client")
        self.pod = pod[0]
        self.E = Eval(client, {
            "cheshire.core/generate-string": self.generate, "cheshire.core/encode": self.generate,
            "cheshire.core/parse-string": self.parse, "cheshire.core/decode": self.parse,
            "clojure.walk/postwalk": lambda E, a: a[1], "clojure.walk/prewalk": lambda E, a: a[1],
            "clojure.java.process/start": lambda E, a: T("fresh", "process"), "clojure.java.io/reader": lambda E, a: T("fresh", "reader"),
            "clojure.spec.alpha/check-asserts": lambda E, a: None, "clojure.spec.alpha/assert": lambda E, a: a[1],
            "clojure.string/join": lambda E, a: T("some", "joined", *a), "clojure.string/replace": lambda E, a: T("some", "replaced", *a),
            "limabean.adapter.debug/dump-configured?": lambda E, a: False,
            "limabean.core.registry/build": lambda E, a: T("fresh", "registry", *a),
            "limabean.core.format/elements-xf": self.elements,
        }, limit=3000)

    def generate(self, E, a):
        E.trace.append(("request", [a[0]], 0))
        E.msg = a[0]
        return T("json", a[0])

    def parse(self, E, a):
        m = E.msg.d.get(K_("method")) if isinstance(E.msg, CMap) else None
        if not isinstance(m, str):
            raise Stop("method of a request")
        E.n[m] = i = E.n.get(m, 0) + 1
        keyed = len(a) > 1 and a[1] is not None and a[1] is not False
        kw = K_ if keyed else str
        top, err = self.off.top, self.off.err
        led = m in ("parser.plugins", "parser.directives", "parser.options")
        if m == "book":
            ok = E.ask(T("succeeds", m, i))
        elif led:
            ok = E.ask(T("succeeds", "ledger"))
        elif m == "status":
            ok = E.ask(T("succeeds", m))
        else:
            ok = True
        if ok:
            d = {"jsonrpc": "2.0", "id": T("id"), "result": T("some", "result", m, i)}
            if m == "status":
                d["result"] = None
            return CMap({kw(k): v for k, v in d.items() if k in top})
        codes = set()
        for (src, p), cs in self.off.errors.get(m, {}).items():
            if src == "Ok" and (p == "Err") == led or m == "status":
                codes |= cs
        par = E.msg.d.get(K_("params"))
        if m == "book":
            codes = {c for c in codes if c[1] == (SPANNED if par is None else INDEXED)}
        codes = sorted(codes, key=repr)
        for c, dk in codes:
            if (c, dk) == codes[-1] or E.ask(T("code", m, i, c)):
                e = {"code": c, "message": T("string", "message", m, i)}
                if dk:
                    e["data"] = T("some", "data", m, i)
                return CMap({kw(k): v for k, v in (("jsonrpc", "2.0"), ("id", T("id")), ("error", CMap({kw(x): y for x, y in e.items() if x in err}))) if k in top})
        raise Stop("%s cannot fail" % m)

    def elements(self, E, a):
        b = a[0]
        return XF([("mapcat", Prim("elements", lambda E2, x: Lst([E2.call(b, [x[0], T("string", "text")])])))])

    def fn(self, name, prefer):
        """a function by its name"""
        fs = self.c.find(name, prefer)
        if not fs:
            return None
        n, _ = fs[0]
        return self.E.define(n, name)

    def paths(self, f):
        return self.E.paths(f)


def requests(trace):
    return [t[1][0] for t in trace if t[0] == "request"]


def sub(v, seen=None):
    """all values inside a value"""
    out, todo = [], [v]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, (T, Seq, Alt, CMap)):
            if hash(x) in seen:
                continue
            seen.add(hash(x))
        out.append(x)
        if isinstance(x, T):
            todo += list(x.a)
        elif isinstance(x, Seq):
            todo += [x.src, x.elem] + [y for s in x.steps for y in s[1:]]
        elif isinstance(x, Alt):
            todo += [y for _, y in x.alts]
        elif isinstance(x, CMap):
            todo += list(x.d.values()) + [x.base]
        elif isinstance(x, (list, tuple)):
            todo += list(x)
    return out


def alts(v):
    return [x for _, y in v.alts for x in alts(y)] if isinstance(v, Alt) else [v]


KEEPS = {"map", "keep", "filter", "remove", "mapcat", "zip", "xf"}


def lineage(v):
    """(where a sequence comes from, [steps it went through])"""
    steps = []
    while True:
        if isinstance(v, Seq):
            steps = list(v.steps) + steps
            v = v.src
        elif isinstance(v, Alt) and len({key(lineage(x)[0]) for x in alts(v)}) == 1:
            v = alts(v)[0]
        elif isinstance(v, T) and v.op == "each":
            v = v.a[0]
        else:
            return v, steps


def is_result(v, m, k=None):
    if k is not None:
        return isinstance(v, T) and v.op == "get" and v.a[1] == K_(k) and is_result(v.a[0], m)
    return isinstance(v, T) and v.op == "some" and v.a[:2] == ("result", m)


def is_data(v, m):
    return isinstance(v, T) and v.op == "some" and v.a[:2] == ("data", m)


def fname(client, path):
    return os.path.relpath(path, facts.REPO)


def at(ns, f):
    return {"function": "%s/%s" % (ns.name, f[1]), "file": fname(None, ns.path), "line": getattr(f, "line", None)}


# ---- C26 ----------------------------------------------------------------------------------------------------------------------------------------
def C26(ctx, r):
    r.explain = ("The client's Clojure source is read and its functions are evaluated over abstract values (maps with known members, representative elements, opaque "
                 "outside values) against every answer that the server's MIR can give: methods, members of requests and answers, error codes with the kind of their data, "
                 "members of reports and spans sent back, the declared specification of directives, keyword conversions. Names are compared with those that the server's "
                 "serialisation code writes and its deserialisation code accepts.")
    client = Client()
    off = Offer(ctx)
    run = Run(off, client)
    for p, e in client.bad:
        r.undecide("%s: %s" % (p, e))
    r.count("client namespaces", len(client.ns))
    methods(ctx, r, off, run)
    answers(ctx, r, off, run)
    spec(ctx, r, off, client)
    used(ctx, r, off, client)
    values(ctx, r, off, run)
    options(ctx, r, off, client)
    loads(ctx, r, off, run)
    ignored(ctx, r, off)
    r.floor("requests", 8, "requests of the client")


def methods(ctx, r, off, run):
    """every request that the functions of the pod's namespace can send"""
    W = ctx.W
    seen = set()
    for d, f in sorted(run.pod.defs.items()):
        if f[0] not in ("defn", "defn-"):
            continue
        fn = run.E.define(run.pod, d)
        site = at(run.pod, f)
        for ps, _ in fn.arities:
            n = len([p for p in ps if not (isinstance(p, Sym) and p == "&")])
            names = [str(p) if isinstance(p, Sym) else "x" for p in ps if not (isinstance(p, Sym) and p == "&")]
            if d in ("invoke", "write-msg", "write-line", "read-msg", "read-to-eol") or d.startswith(("invoke", "write-", "read-")):
                continue
            args = [T("some", "arg", x) for x in names]
            try:
                paths = run.paths(lambda E: E.call(fn, args))
            except Stop as e:
                if "method of a request" not in str(e):
                    r.undecide("%s: %s" % (d, e))
                continue
            for order, trace, v in paths:
                for q in requests(trace):
                    if not isinstance(q, CMap):
                        r.undecide("%s: request not understood" % d)
                        continue
                    m = q.d.get(K_("method"))
                    if not isinstance(m, str):
                        continue
                    r.count("requests")
                    seen.add(m)
                    lab = "%s:%s" % (d, m)
                    if m not in off.vs:
                        r.violate("method:" + m, "%s calls method %s, which the server does not accept" % (d, m), site)
                    elif d in FUNCS and m != FUNCS[d]:
                        r.violate("function:" + d, "%s calls method %s" % (d, m), site)
                    ks = {str(k) for k in q.d}
                    for k in sorted(ks - {"method", "params", "id", "jsonrpc"}):
                        r.violate("%s:%s" % (lab, k), "%s sends the member %s, which is no member of a request" % (d, k), site)
                    ver = q.d.get(K_("jsonrpc"))
                    if isinstance(ver, str):
                        if m in off.vs:
                            for a, pc, j, f2 in ctx.answers(method=off.vs[m], version=ver, sources="Ok", parse="Ok"):
                                if j is not None and m != "book" and all(l.op == "absent" for l in leaves_(member(j, "result"))):
                                    r.violate(lab + ":jsonrpc", "%s sends protocol version %s, which the server refuses" % (d, ver), site)
                    elif ver is None:
                        r.violate(lab + ":jsonrpc", "%s sends no protocol version" % d, site)
                    if q.d.get(K_("id")) is None:
                        r.violate(lab + ":id", "%s sends no id" % d, site)
                    par = q.d.get(K_("params"))
                    if par is not None and m not in PARAMS:
                        r.violate(lab + ":params", "%s sends parameters, which %s does not have" % (d, m), site)
                    if len(names) > 1 and m in PARAMS and par is None and d in FUNCS and not any(not b for t, b in order if isinstance(t, T) and t == args[-1]):
                        r.violate(lab + ":params", "%s does not pass its parameter on" % d, site)
                    if par is not None and d in FUNCS and len(args) > 1 and not any(key(x) == key(args[-1]) for x in sub(par)):
                        r.violate(lab + ":params", "%s sends %s for its parameter" % (d, show(par, 60)), site)
                    r.sample("%s -> %s {%s}" % (d, m, ", ".join(sorted(ks))))
    for d, m in FUNCS.items():
        if d in run.pod.defs and m in off.vs and m not in seen:
            r.undecide("%s: no request found" % d)
    # how the server reads a request
    rd = {}
    for t in W.debody:
        x = W.record(t)
        if x and {"jsonrpc", "id"} <= set(x["fields"]):
            rd = x
            names = {n for d in x["fields"].values() for n in d["names"]}
            for n in ("jsonrpc", "id"):
                if n not in names:
                    r.violate("request:" + n, "the server does not read the member %s of a request" % n, None)
    vr = [W.variant_reads(t) for t in W.debody]
    vr = [x for x in vr if x and x[0] and "status" in x[1]]
    if vr and vr[0][0] != "method":
        r.violate("request:method", "the server reads the method of a request from member %s, the client sends it as method" % vr[0][0], None)


def answers(ctx, r, off, run):
    """results and errors as the client's functions return them"""
    for n in ("result", "error"):
        if off.top and n not in off.top:
            r.violate("answer:" + n, "the server's answers have no member %s" % n, None)
    for d, m in sorted(FUNCS.items()):
        if d not in run.pod.defs or m not in off.vs or m == "status":
            continue
        fn = run.E.define(run.pod, d)
        n = max(len([p for p in ps]) for ps, _ in fn.arities)
        site = at(run.pod, run.pod.defs[d])
        for withp in ((True, False) if m == "book" else (True,)):
            args = [T("some", "pod")] + ([T("some", "params")] if withp else [None]) * (n - 1)
            try:
                paths = run.paths(lambda E: E.call(fn, args))
            except Stop as e:
                r.undecide("%s: %s" % (d, e))
                continue
            for order, trace, v in paths:
                r.count("answers")
                ok = dict((t.a[0], b) for t, b in order if isinstance(t, T) and t.op == "succeeds")
                failed = any(b is False for b in ok.values())
                if isinstance(v, Thrown):
                    if not failed and any(t[0] == "request" for t in trace):
                        r.violate("%s:throws" % d, "%s throws when %s succeeds" % (d, m), site)
                    continue
                res = T("some", "result", m, 1)
                if not failed:
                    got = v.d.get(K_("ok")) if isinstance(v, CMap) and d not in ("format-errors", "format-warnings", "resolve-spans", "create-synthetic-spans") else v
                    if isinstance(got, T) and got.op == "get" and got.a[1] == K_("ok"):
                        got = got.a[0]
                    if not (isinstance(got, T) and got == res):
                        if isinstance(got, T) and any(x == res for x in sub(got)) or got is None or isinstance(got, CMap):
                            r.violate("%s:result" % d, "%s returns %s for the result of %s" % (d, show(v, 80), m), site)
                        else:
                            r.undecide("%s: returns %s" % (d, show(v, 80)))
                    continue
                e = v.d.get(K_("err")) if isinstance(v, CMap) else None
                if e is None:
                    r.violate("%s:error" % d, "%s returns %s when %s fails" % (d, show(v, 80), m), site)
                    continue
                want = SPANNED if not withp or m != "book" else INDEXED
                e = e.d if isinstance(e, CMap) else {}
                data = T("some", "data", m, 1)
                for kind in (SPANNED, INDEXED):
                    x = e.get(K_(kind))
                    if kind == want and x != data:
                        r.violate("%s:%s" % (d, kind), "%s: the %s of the server's error reach the client as %s" % (d, kind, show(CMap(e), 100)), site)
                    elif kind != want and x is not None:
                        r.violate("%s:%s" % (d, kind), "%s: the server's %s are taken for %s" % (d, want, kind), site)
                r.count("errors")


# -- the declared specification of directives
def specdefs(client):
    out, multi = {}, {}
    for n in client.ns.values():
        for f in n.forms:
            if isinstance(f, Lst) and len(f) == 3 and isinstance(f[0], Sym) and f[0].split("/")[-1] == "def" and isinstance(f[1], Kw):
                out[str(f[1])] = (f[2], n, f)
            if isinstance(f, Lst) and f and isinstance(f[0], Sym) and f[0] == "defmethod" and len(f) >= 5:
                multi.setdefault(str(f[1]), {})[str(f[2]) if isinstance(f[2], Kw) else None] = (f[-1], n, f)
    return out, multi


def speckeys(x, defs, depth=0):
    """{unqualified name: (required, spec name)} that s/keys forms under a spec declare"""
    out = {}
    if depth > 8:
        return out
    if isinstance(x, Kw) and str(x) in defs:
        return speckeys(defs[str(x)][0], defs, depth + 1)
    if isinstance(x, Lst) and x and isinstance(x[0], Sym):
        h = x[0].split("/")[-1]
        if h == "keys":
            o = dict(zip(x[1::2], x[2::2]))
            for k, req in (("req-un", 1), ("opt-un", 0), ("req", 1), ("opt", 0)):
                for s in o.get(K_(k), ()):
                    if isinstance(s, Kw):
                        out[str(s).split("/")[-1]] = (req, str(s))
        elif h in ("and", "merge"):
            for y in x[1:]:
                out.update(speckeys(y, defs, depth + 1))
    return out


SPECS = {"raw": ("raw-dct", "directive", "transaction", {"postings": "posting", "cost-spec": "cost spec", "price-spec": "price spec"}),
         "booked": ("booked-dct", "booked directive", "booked transaction", {"postings": "booked posting", "cost": "cost", "price": "booked price"})}


def spec(ctx, r, off, client):
    defs, multi = specdefs(client)
    if not defs:
        r.undecide("no specification of directives found in the client")
        return
    for kind, (mm, base, txn, subs) in SPECS.items():
        ms = multi.get(mm)
        if not ms:
            r.undecide("no specification of %s directives found" % kind)
            continue
        for w, role in VARIANTS.items():
            if w not in ms:
                r.violate("spec:%s:%s" % (kind, w), "the client has no specification of %s directives of kind %s" % (kind, w), None)
                continue
            form, n, f = ms[w]
            role = txn if w == "txn" else ("booked " + role if kind == "booked" and "booked " + role in off.T.role else role)
            match(r, off, defs, form, "%s:%s" % (kind, w), role, base, {"function": "%s %s" % (mm, w), "file": fname(None, n.path), "line": f.line}, subs)
        for w in ms:
            if w is not None and w not in VARIANTS:
                r.violate("spec:%s:%s" % (kind, w), "the client specifies %s directives of kind %s, which the server does not have" % (kind, w),
                          {"function": "%s %s" % (mm, w), "file": fname(None, ms[w][1].path), "line": ms[w][2].line})
        b = [v for k, v in defs.items() if k.split("/")[-1] == "base-dct"]
        if b:
            match(r, off, defs, b[0][0], "%s:directive" % kind, base, None, {"function": "base-dct", "file": fname(None, b[0][1].path), "line": b[0][2].line}, subs)
    enums(ctx, r, off, defs)


def match(r, off, defs, form, label, role, also, site, subs):
    have = off.role(role)
    if have is None:
        r.undecide("%s: no type of the server found for %s" % (label, role))
        return
    ref = SCHEMA.get(role) or SCHEMA.get(role.replace("booked ", "")) or {}
    for k, (req, s) in sorted(speckeys(form, defs).items()):
        r.count("specified members")
        if k not in have and not (also and k in (off.role(also) or ())):
            r.violate("spec:%s:%s" % (label, k), "the client's specification of %s names %s, which the server does not write" % (role, k), site)
        elif req and ref.get(k, (0,))[0] == 1 and k in ref:
            r.violate("spec:%s:%s:required" % (label, k), "the client's specification requires %s of %s, which the server may leave out" % (k, role), site)
        if k in subs:
            d = defs.get(s)
            el = d[0] if d else None
            if isinstance(el, Lst) and el and isinstance(el[0], Sym) and el[0].split("/")[-1] == "coll-of":
                el = el[1]
            if el is not None:
                match(r, off, defs, el, label + "." + k, subs[k], None, {"function": s, "file": site["file"], "line": d[2].line}, subs)


def enums(ctx, r, off, defs):
    W = ctx.W
    bk = [(k, v) for k, v in defs.items() if k.split("/")[-1] == "booking" and isinstance(v[0], SetF)]
    if bk:
        k, (f, n, form) = bk[0]
        names = {str(x) for x in f if isinstance(x, Kw)}
        wr = None
        for t in W.debody:
            x = W.variant_reads(t)
            if x and x[0] is None and "strict" in x[1]:
                wr = set(x[1])
        if wr is None:
            r.undecide("booking methods of the server not found")
        else:
            for x in sorted(names ^ wr):
                r.violate("booking:" + x, "the booking method %s is known to the %s only" % (x, "client" if x in names else "server"), {"function": k, "file": fname(None, n.path), "line": form.line})
            r.count("booking methods", len(names | wr))
    mv = [(k, v) for k, v in defs.items() if k.split("/")[-1] == "metavalue" and isinstance(v[0], Lst)]
    if mv:
        from rules.wire_rules import META
        k, (f, n, form) = mv[0]
        names = set()
        for x in f[1:]:
            if isinstance(x, Lst) and x and isinstance(x[0], Sym) and x[0].split("/")[-1] == "map-of" and isinstance(x[1], SetF):
                names |= {str(y) for y in x[1] if isinstance(y, Kw)}
            if isinstance(x, Kw):
                names |= set(speckeys(x, defs)) if str(x) in defs and "/amount" in str(x) else set()
        wr = meta_names(ctx, off)
        if wr:
            for x in sorted(wr - names):
                r.violate("metavalue:" + x, "metadata values are written under %s, which the client does not know" % x, {"function": k, "file": fname(None, n.path), "line": form.line})
            r.count("kinds of metadata values", len(wr))


def meta_names(ctx, off):
    """names of the members under which metadata values of any kind are written"""
    t = off.T.role.get("metavalue")
    ms = ctx.W.members(t) if t else None
    if ms is None:
        return None
    out = set()
    for v in ctx.prog.adts[t]["variants"]:
        for n, val, c, site in ms:
            n = restrict(n, mk("discr", t, ctx.W.v), v["name"])
            j = ctx.J(n) if n.op != "str" else n
            for l in leaves_(j):
                if l.op == "str":
                    out.add(l.a[0])
    return out


def used(ctx, r, off, client):
    """names of the protocol that the client's code mentions must be written by the server in the place where they belong"""
    kws = {}
    for n in client.ns.values():
        def walk(x, f):
            if isinstance(x, Kw):
                k = str(x).split("/")[-1]
                kws.setdefault(k, (n, f))
            elif isinstance(x, MapF):
                for a, b in x:
                    if isinstance(a, Kw) and str(a) in ("keys",) and isinstance(b, Vec):
                        for s in b:
                            kws.setdefault(str(s), (n, f))
                    walk(a, f)
                    walk(b, f)
            elif isinstance(x, list):
                for y in x:
                    walk(y, f)
        for f in n.forms:
            walk(f, f)
    for role, sch in SCHEMA.items():
        if role in ("source",):
            continue
        have = off.role(role)
        if have is None:
            continue
        for k in sch:
            if k != "*" and k in kws:
                r.count("names in use")
                if k not in have:
                    n, f = kws[k]
                    r.violate("name:%s:%s" % (role, k), "the client uses %s of %s, which the server does not %s" % (k, role, "write" if role != "report" and role != "synthetic span" else "read"),
                              {"function": n.name, "file": fname(None, n.path), "line": getattr(f, "line", None)})


# -- conversion of values
def values(ctx, r, off, run):
    E = run.E
    f = run.pod.defs.get("convert-values")
    conv = None
    for d, g in run.pod.defs.items():
        if any(isinstance(x, Sym) and x.split("/")[-1] in ("postwalk", "prewalk") for x in flat(g)):
            conv = (d, g)
    if conv is None:
        r.undecide("no conversion of values found in the client")
    else:
        d, g = conv
        grabbed = []
        E2 = Eval(run.c, {"clojure.walk/postwalk": lambda E, a: grabbed.append(a[0]) or T("walked"), "clojure.walk/prewalk": lambda E, a: grabbed.append(a[0]) or T("walked"),
                          "java-time.api/local-date": lambda E, a: T("localdate", a[0])})
        fn = E2.define(run.pod, d)
        try:
            E2.paths(lambda E: E.call(fn, [T("some", "data")] * len(fn.arities[0][0])))
        except Stop as e:
            r.undecide("%s: %s" % (d, e))
        site = at(run.pod, g)
        if grabbed:
            w = grabbed[0]
            st, other = T("string", "s"), CMap({K_("string"): T("string", "t")})
            for k, kind in (("dct", "keyword"), ("booking", "keyword"), ("date", "localdate")):
                for val, exp in ((st, T(kind, st)), (other, other), (None, None)):
                    x = CMap({K_(k): val, K_("acc"): T("string", "a")})
                    try:
                        for order, trace, v in E2.paths(lambda E: E.call(w, [x])):
                            r.count("conversions")
                            got = v.d.get(K_(k)) if isinstance(v, CMap) else v
                            rest = CMap({a: b for a, b in v.d.items() if a != K_(k)}) if isinstance(v, CMap) else None
                            if isinstance(v, Thrown) or key(got) != key(exp) or rest != CMap({K_("acc"): T("string", "a")}):
                                r.violate("convert:%s:%s" % (k, "text" if val is st else "map" if val is other else "null"),
                                          "a member %s that is %s becomes %s" % (k, show(val, 40), show(got, 60)), site)
                    except Stop as e:
                        r.undecide("%s of %s: %s" % (d, k, e))
            for x in (CMap({K_("acc"): st}), CMap({K_("type"): st, K_("flag"): st}), st, T("number"), None, Vec([st])):
                try:
                    for order, trace, v in E2.paths(lambda E: E.call(w, [x])):
                        r.count("conversions")
                        if isinstance(v, Thrown) or key(v) != key(x):
                            r.violate("convert:other", "%s becomes %s" % (show(x, 60), show(v, 60)), site)
                except Stop as e:
                    r.undecide("%s: %s" % (d, e))
    # sets and lists
    d = "coerce-arrays"
    if d in run.pod.defs:
        fn = E.define(run.pod, d)
        want = {}
        for role, sch in SCHEMA.items():
            t = off.T.role.get(role)
            if t:
                for n, fld_, ty in off.T.fields(t):
                    c = tyname(ty)
                    s = re.sub(r"std::option::Option<|&|'_\s?", "", ty)
                    k = "set" if re.match(r"std::collections::(hash_set::|btree_set::)?(Hash|BTree)Set", s) else "list" if s.startswith(("std::vec::Vec", "alloc::vec::Vec", "[")) else None
                    if k and n != "*":
                        want.setdefault(n, set()).add(k)
        for n, ks in sorted(want.items()):
            if len(ks) != 1:
                continue
            for order, trace, v in E.paths(lambda E: E.call(fn, [n])):
                r.count("arrays")
                got = "set" if isinstance(v, (CSet, frozenset)) else "list" if isinstance(v, (Vec, Lst)) else None
                if got is None:
                    r.undecide("coerce-arrays of %s: %s" % (n, show(v, 40)))
                elif got != list(ks)[0]:
                    r.violate("array:" + n, "the array %s, a %s of the server, is read as a %s" % (n, list(ks)[0], got), at(run.pod, run.pod.defs[d]))
    # names become keywords and amounts keep their digits
    for d, g in run.pod.defs.items():
        for x in forms(g):
            if isinstance(x[0], Sym) and x[0].split("/")[-1] in ("parse-string", "decode") and "cheshire" in run.E.resolve(str(x[0]), run.pod):
                r.count("decodings")
    fn = run.fn("read-msg", POD)
    if fn:
        E.msg = None
        run2 = Eval(run.c, {"cheshire.core/parse-string": lambda E, a: E.trace.append(("parse", list(a), 0)) or T("some", "parsed"), "clojure.walk/postwalk": lambda E, a: a[1]})
        try:
            for order, trace, v in run2.paths(lambda E: E.call(fn, [T("some", "pod")])):
                big = False
                for t in trace:
                    if t[0] == "binding" and str(t[1][0]).endswith("*use-bigdecimals?*"):
                        big = t[1][1] is True
                    if t[0] == "unbinding" and str(t[1][0]).endswith("*use-bigdecimals?*"):
                        big = False
                    if t[0] == "parse":
                        r.count("decodings")
                        if not big:
                            r.violate("decode:decimals", "numbers of answers are read as floating point", at(run.pod, run.pod.defs["read-msg"]))
                        if len([a for a in t[1] if not isinstance(a, T)]) and True not in t[1]:
                            r.violate("decode:keywords", "member names of answers are not read as keywords", at(run.pod, run.pod.defs["read-msg"]))
        except Stop as e:
            r.undecide("read-msg: %s" % e)


def flat(x):
    if isinstance(x, tuple) or isinstance(x, list):
        for y in x:
            yield from flat(y)
    else:
        yield x


def forms(x):
    if isinstance(x, Lst) and x:
        yield x
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from forms(y)


# -- options
def options(ctx, r, off, client):
    have = off.members("parser.options")
    if have is None:
        r.undecide("members of the server's options not found")
        return
    for n in client.ns.values():
        for f in n.forms:
            for x in forms(f):
                k = None
                if len(x) >= 2 and isinstance(x[0], Kw) and is_options(x[1]):
                    k = x[0]
                elif len(x) >= 3 and isinstance(x[0], Sym) and x[0] in ("get", "contains?") and is_options(x[1]) and isinstance(x[2], Kw):
                    k = x[2]
                if k is None or n.name.endswith(("main", "app")):
                    continue
                r.count("options in use")
                if str(k) not in have:
                    r.violate("option:" + str(k), "the client reads the option %s, which the server does not report" % k, {"function": "%s/%s" % (n.name, f[1] if len(f) > 1 else ""),
                              "file": fname(None, n.path), "line": x.line})


def is_options(x):
    return isinstance(x, Sym) and x == "options" or isinstance(x, Lst) and len(x) == 2 and x[0] == K_("options")


# -- reports and spans sent back
def loads(ctx, r, off, run):
    rep, syn, idx = off.role("report"), off.role("synthetic span"), off.role("indexed report")
    W = ctx.W
    need = {}
    for role in ("report", "synthetic span"):
        t = off.T.role.get(role)
        x = W.record(t) if t else None
        if x:
            need[role] = {n for d in x["fields"].values() if d["absent"] == "error" for n in d["names"][:1]}, {n for d in x["fields"].values() for n in d["names"]}
    try:
        ps = load_paths(run)
    except Stop as e:
        r.undecide("loading is not understood: %s" % e)
        return
    for order, trace, v, err in ps:
        r.count("loads")
        for q in requests(trace):
            m = q.d.get(K_("method")) if isinstance(q, CMap) else None
            par = q.d.get(K_("params")) if isinstance(q, CMap) else None
            role = "report" if m in ("parser.format-errors", "parser.format-warnings") else "synthetic span" if m == "parser.create-synthetic-spans" else None
            if role is None or role not in need or par is None:
                continue
            req, names = need[role]
            if role == "report":
                carried(r, list(items(par)))
            for x in items(par):
                    r.count("items sent")
                    ks = {str(k) for k, y in x.d.items() if y is not GONE}
                    for k in sorted(ks - names):
                        r.violate("%s:%s" % (m, k), "%s is sent items with the member %s, which the server does not read" % (m, k), None)
                    for k in sorted(req - ks):
                        r.violate("%s:%s" % (m, k), "%s is sent items without the member %s, which the server requires" % (m, k), None)
        # members read from what the server sent
        xs = list(sub([t for t, b in order] + [v] + [q for q in requests(trace)]))
        looked = {key(x.a[1]) for x in xs if isinstance(x, T) and x.op in ("nth", "get") and isinstance(x.a[1], T)}
        for x in xs:
            if isinstance(x, T) and x.op == "get" and isinstance(x.a[1], Kw):
                role = place(x.a[0])
                if role:
                    have = off.role(role) if role in SCHEMA else off.items("parser.plugins") if role == "plugin" else None
                    if have is not None:
                        r.count("members read")
                        ref = SCHEMA.get(role) or {"name": 0, "config": 0}
                        if str(x.a[1]) not in have and (str(x.a[1]) in ref or key(x) in looked):
                            r.violate("read:%s:%s" % (role, x.a[1]), "the client reads %s of %s, which the server does not write" % (x.a[1], role), None)
    for m in ("parser.directives", "book"):
        have = off.members(m)
        if have is not None and "directives" not in have:
            r.violate("result:%s" % m, "the result of %s has no member directives" % m, None)


def items(v):
    """the records of which a parameter is a list"""
    if isinstance(v, CMap):
        yield v
    elif isinstance(v, Seq):
        yield from items(v.elem)
    elif isinstance(v, Alt):
        for _, x in v.alts:
            yield from items(x)
    elif isinstance(v, (Vec, Lst)):
        for x in v:
            yield from items(x)


def carried(r, xs):
    """reports made from indexed reports of the server keep their parts; pairs are a description and a span"""
    from_book = lambda y: isinstance(y, T) and y.op == "get" and isinstance(y.a[0], T) and y.a[0].op == "elem" and is_data(lineage(y.a[0].a[0])[0], "book")
    made = [x for x in xs if any(from_book(z) for y in x.d.values() for z in sub(y))]
    for k in ("reason", "annotation") if made else ():
        # an annotation may be absent, and the report then be made without it
        kss = [{str(z.a[1]) for z in sub(x.d.get(K_(k))) if from_book(z)} if x.d.get(K_(k)) is not None else set() for x in made]
        bad = [ks for ks in kss if k not in ks]
        if bad and (k == "reason" or len(bad) == len(kss) or any(bad)):
            r.violate("report:" + k, "the %s of a report is %s" % (k, "the server's " + min(bad[0]) if bad[0] else "not what the server reports"), None)
    for x in xs:
        for k in ("related", "contexts"):
            y = x.d.get(K_(k))
            if y is None or y is GONE:
                continue
            if from_book(y):
                r.violate("report:" + k, "the server's indexes are sent as %s" % k, None)
            for e in (y if isinstance(y, (Vec, Lst)) else alts(y.elem) if isinstance(y, Seq) else ()):
                if isinstance(e, (Vec, Lst)):
                    if len(e) != 2:
                        r.violate("report:" + k, "%s has elements of %d items, the server reads a description and a span" % (k, len(e)), None)
                    elif spanlike(e[0]) or textlike(e[1]):
                        r.violate("report:" + k, "%s has a span before its description" % k, None)
        if textlike(x.d.get(K_("span"))):
            r.violate("report:span", "the span of a report is text", None)


def spanlike(x):
    return isinstance(x, T) and x.op == "get" and x.a[1] in (K_("span"), K_("span-p"))


def textlike(x):
    return isinstance(x, str) and not isinstance(x, (Kw, Sym)) or isinstance(x, T) and x.op == "str"


def place(x):
    """what an opaque value read by the client is in the protocol"""
    if isinstance(x, T) and x.op in ("elem", "nth"):
        s, _ = lineage(x.a[0])
        if is_result(s, "parser.plugins"):
            return "plugin"
        if is_result(s, "parser.directives", "directives"):
            return "directive"
        if is_result(s, "book", "directives"):
            return "booked directive"
        if is_data(s, "book"):
            return "indexed report"
        if isinstance(s, T) and s.op == "get" and s.a[1] == K_("postings"):
            return {"directive": "posting", "booked directive": "booked posting"}.get(place(s.a[0]))
    return None


def load_paths(run):
    """every way loading a ledger can go, and printing its errors"""
    if getattr(run, "_paths", None) is None:
        load = run.fn("load-beanfile", "adapter.loader")
        if load is None:
            raise Stop("no load-beanfile")
        pe = run.fn("print-errors", "adapter.error")
        out = []

        def go(E):
            v = E.call(load, [T("string", "path")])
            err = v.d.get(K_("error")) if isinstance(v, CMap) else None
            E.mark = len(E.trace)
            if err is not None and pe is not None:
                E.trace.append(("printing", [], 0))
                E.call(pe, [v])
            return (v, err)
        for order, trace, v in run.paths(go):
            if isinstance(v, Thrown):
                out.append((order, trace, v, None))
            else:
                out.append((order, trace, v[0], v[1]))
        run._paths = out
    return run._paths


def ignored(ctx, r, off):
    """members that plugins add to directives must not make the server refuse them"""
    p = ctx.prog
    for role in ("directive", "transaction", "posting"):
        t = off.T.role.get(role)
        if not t:
            continue
        r.count("records")
        for b in p.bodies.values():
            if t in b["path"] and "visit_str" in b["path"].split("::")[-1] and "Field" in b["path"]:
                for blk in b["blocks"]:
                    x = blk["t"]
                    if x and x[0] == "call" and x[1][0] == "k" and "fn" in x[1][1] and x[1][1]["fn"]["path"].endswith("unknown_field"):
                        r.violate("unknown:%s" % role, "%s sent by the client is refused when it has members of the client's own, such as its provenance" % role,
                                  {"function": b["path"], "file": b["span"][0], "line": b["span"][1]})


# ---- C27 ----------------------------------------------------------------------------------------------------------------------------------------
def tells(run, f, k):
    """what a test of an element says about the presence of an entry: + when it holds with it, - when it holds without, None when neither"""
    memo = run.__dict__.setdefault("_tells", {})
    m = (fkey(f), k)
    if m not in memo:
        memo[m] = None
        try:
            got = []
            for v in (CMap({K_(k): CMap({K_("message"): "message"})}), CMap({})):
                rs = {bool(x) if not isinstance(x, Thrown) else None for _, _, x in run.paths(lambda E, v=v: E.truth(E.call(f, [v])))}
                got.append(rs.pop() if len(rs) == 1 else None)
            memo[m] = {(True, False): "+", (False, True): "-"}.get(tuple(got))
        except Stop:
            pass
    return memo[m]


def on(run, t, src, k):
    """what a decision about a sequence says: 1 when it holds if some element has an entry, -1 when it holds if none has, 0 when it is about something else"""
    if t.op not in ("nonempty", "any", "all") or not src(lineage(t.a[0])[0]):
        return 0
    if t.op in ("any", "all"):
        x = tells(run, t.a[1], k)
        return {("any", "+"): 1, ("all", "-"): -1}.get((t.op, x), 0)
    _, steps = lineage(t.a[0])
    while steps and steps[-1][0] == "map":
        steps = steps[:-1]
    if not steps:
        return 0
    st = steps[-1]
    if len(st) > 2:
        return 1 if (st[0], tells(run, st[2], k)) in (("filter", "+"), ("remove", "-"), ("keep", "+")) else 0
    if st[0] == "keep":
        return 1 if any(isinstance(y, Kw) and y == K_(k) or isinstance(y, T) and y.op == "get" and y.a[1] == K_(k) for y in sub(st[1:])) else 0
    return 0


def decided(run, order, src, k):
    """the answers to the decisions about elements with an entry"""
    out = []
    for t, b in order:
        x = on(run, t, src, k) if isinstance(t, T) else 0
        if x:
            out.append(b if x > 0 else not b)
    return out


def C27(ctx, r):
    r.explain = ("Loading a ledger is evaluated over abstract values along every path: each answer of the server (success, errors with spanned or indexed reports), plugins that "
                 "exist or not, resolve or not, throw or emit directives with errors. On every path the requests sent, the input of each stage, the error recorded and the "
                 "final directives are compared with the stage order; the composition of plugins is traced back to the order in which the server lists them.")
    client = Client()
    off = Offer(ctx)
    run = Run(off, client)
    try:
        ps = load_paths(run)
    except Stop as e:
        raise facts.CannotDecide("C27: loading a ledger is not understood: %s" % e)
    ns, f = client.find("load-beanfile", "adapter.loader")[0]
    site = at(ns, f)
    raw = lambda x: is_result(x, "parser.directives", "directives")
    bkd = lambda x: is_result(x, "book", "directives")
    plg = lambda x: is_result(x, "parser.plugins")
    sawdct, sawplg, ran, resolved, noted, spanned = set(), False, set(), set(), set(), set()
    for order, trace, v, err in ps:
        r.count("paths")
        for t, b in order:
            if isinstance(t, T) and t.op not in ("succeeds", "completes"):
                about(run, t, noted, raw, bkd, plg)
        cut = next((i for i, t in enumerate(trace) if t[0] == "printing"), len(trace))
        reqs = [q for q in requests(trace[:cut]) if isinstance(q, CMap)]
        ms = [q.d.get(K_("method")) for q in reqs]
        dec = {key(t): b for t, b in order}
        led = dec.get(key(T("succeeds", "ledger")))
        bk = dec.get(key(T("succeeds", "book", 1)))
        how = describe(order)
        if isinstance(v, Thrown):
            if led is True:
                r.violate("throws:%s" % how, "loading throws when %s" % how, site)
            elif led is False:
                r.violate("parser:throws", "loading throws after syntax errors instead of recording them", site)
            continue
        if not isinstance(v, CMap):
            r.undecide("the result of loading is %s" % show(v, 60))
            continue
        d = v.d.get(K_("directives"))
        # requests: each at most once, the ledger before booking
        for m in ("parser.plugins", "parser.directives", "book"):
            if ms.count(m) > 1:
                r.undecide("%s is requested %d times" % (m, ms.count(m)))
        if "book" in ms and "parser.directives" in ms and ms.index("book") < ms.index("parser.directives"):
            r.violate("order:book", "booking is requested before the directives", site)
        # error of the parser
        if led is False:
            if err is None:
                r.violate("parser:unreported", "syntax errors are not recorded", site)
            elif not any(is_data(x, m) for x in sub(err) for m in ("parser.plugins", "parser.directives", "parser.options")):
                r.violate("parser:reports", "the reports of syntax errors are lost", site)
            else:
                printed(r, "syntax errors", trace[cut:], lambda x: any(is_data(x, m) for m in ("parser.plugins", "parser.directives", "parser.options")), site)
            if "book" in ms or d is not None:
                r.violate("parser:continues", "loading goes on after syntax errors", site)
            continue
        # errors of plugins
        pe = decided(run, order, plg, "err")
        sawplg = sawplg or bool(pe)
        if True in pe:
            if err is None:
                r.violate("plugins:unreported", "a plugin that cannot be loaded is not recorded as an error", site)
            if "book" in ms or d is not None:
                r.violate("plugins:continues", "loading goes on although a plugin cannot be loaded", site)
            elif err is not None:
                printed(r, "plugins that cannot be loaded", trace[cut:], shares(err), site)
            continue
        # raw plugins
        runs = {"raw": None, "booked": None}
        for t, b in order:
            x = stage_of(run, t, plg)
            if x:
                runs[x[0]] = b if x[1] > 0 else not b
        rawerr = decided(run, order, raw, "err")
        if runs["raw"]:
            sawdct |= {"raw"} if rawerr else set()
        if True in rawerr or stage_threw(run, order, plg, "raw"):
            if err is None:
                r.violate("raw:unreported", "an error of a raw plugin (%s) is not recorded" % how, site)
            if "book" in ms or d is not None:
                r.violate("raw:continues", "loading goes on after an error of a raw plugin", site)
            elif err is not None:
                printed(r, "errors of raw plugins", trace[cut:], shares(err), site)
            continue
        if "book" not in ms:
            if err is None:
                r.violate("book:missing", "nothing is booked when %s" % how, site)
            continue
        q = reqs[ms.index("book")]
        par = q.d.get(K_("params"))
        for x in sub(v.d.get(K_("plugins"))) if v.d.get(K_("plugins")) is not None else ():
            if isinstance(x, Seq) and plg(lineage(x)[0]) and key(x) not in resolved:
                resolved.add(key(x))
                resolution(r, x, client)
        looked_up(r, [d, err], par, bkd, raw, site)
        if runs["raw"]:
            if par is None:
                r.violate("book:input", "the output of the raw plugins is not what is booked", site)
            else:
                s, steps = lineage(strip(par))
                if raw(s):
                    if through(steps):
                        ran.add("raw")
                    ordered(r, "the directives that are booked", steps, site)
                    if not through(steps):
                        r.violate("book:input", "the directives that are booked do not come from the raw plugins", site)
                else:
                    r.undecide("what is booked: %s" % show(s, 80))
        elif par is not None and not raw(lineage(strip(par))[0]):
            r.violate("book:input", "%s is booked although there is no raw plugin" % show(par, 60), site)
        # booking
        if bk is False:
            if err is None:
                r.violate("book:unreported", "booking errors are not recorded", site)
            elif not any(is_data(x, "book") for x in sub(err)) and not thrown_in(err):
                r.violate("book:reports", "the reports of booking errors %s are lost" % ("of directives from plugins" if par is not None else "of the ledger as parsed"), site)
            elif not thrown_in(err):
                printed(r, "booking errors %s" % ("of directives from plugins" if par is not None else "of the ledger as parsed"), trace[cut:], lambda x: is_data(x, "book"), site)
            if d is not None:
                r.violate("book:continues", "loading goes on after booking errors", site)
            continue
        if bk is True and err is not None and thrown_in(err):
            continue
        bkerr = decided(run, order, bkd, "err")
        if runs["booked"]:
            sawdct |= {"booked"} if bkerr else set()
        if True in bkerr or stage_threw(run, order, plg, "booked"):
            if err is None:
                r.violate("booked:unreported", "an error of a booked plugin (%s) is not recorded" % how, site)
            if d is not None:
                r.violate("booked:continues", "loading goes on after an error of a booked plugin", site)
            elif err is not None:
                printed(r, "errors of booked plugins", trace[cut:], shares(err), site)
            continue
        if err is not None:
            r.violate("error:%s" % how, "an error is recorded when %s" % how, site)
            continue
        # success
        s, steps = lineage(strip(d))
        if isinstance(d, (Vec, Lst)) or d is None:
            r.violate("result:%s" % how, "loading gives no directives when %s" % how, site)
        elif bkd(s):
            if through(steps):
                ran.add("booked")
            ordered(r, "the directives that are returned", steps, site)
            if bool(runs["booked"]) != through(steps):
                r.violate("result:plugins", "the directives that are returned are %sthose of the booked plugins" % ("not " if runs["booked"] else ""), site)
        elif raw(s):
            r.violate("result:raw", "the directives that are returned are not the booked ones (%s)" % how, site)
        elif s is None or isinstance(s, (Vec, Lst)):
            r.violate("result:none", "the directives that are returned are made from nothing (%s)" % how, site)
        else:
            r.undecide("the directives that are returned: %s" % show(s, 80))
        r.sample("%s -> %s" % (", ".join(map(str, ms)), "directives" if err is None else "error"))
        plugin_order(r, [par, d], runs, plg, site)
        if not spanned and any(isinstance(x, Seq) and bkd(lineage(x)[0]) and any(isinstance(y, CMap) and y.d.get(K_("span"), GONE) is not GONE for y in alts(x.elem)) for x in sub(d)):
            spanned.add(1)
        reg = v.d.get(K_("registry"))
        if isinstance(reg, T) and reg.op == "fresh":
            r.count("registries")
            if not any(key(x) == key(d) or key(x) == key(strip(d)) for x in reg.a):
                r.violate("registry", "the registry is not built from the directives that are returned (%s)" % how, site)
    if not sawplg:
        if "plugins" in noted:
            r.undecide("what is decided about plugins that cannot be loaded")
        else:
            r.violate("plugins:ignored", "nothing depends on whether plugins can be loaded", site)
    if not spanned:
        r.violate("spans", "booked directives do not get the spans of the directives they were made from", site)
    for k in ("raw", "booked"):
        if k not in ran:
            r.violate("run:" + k, "the output of %s plugins is never used" % k, site)
        elif k not in sawdct:
            if k in noted:
                r.undecide("what is decided about errors emitted by %s plugins" % k)
            else:
                r.violate("%s:ignored" % k, "nothing depends on errors emitted by %s plugins" % k, site)
    r.floor("paths", 20, "paths of loading")


def about(run, t, noted, raw, bkd, plg):
    """decisions that depend on an :err of something, in a way that is understood or not"""
    if not t.a:
        return
    s, steps = lineage(t.a[0])
    fs = [st[2] for st in steps if len(st) > 2] + ([t.a[1]] if t.op in ("any", "all") else [])
    vals = [y for st in steps if st[0] in ("filter", "keep", "remove") and len(st) < 3 for x in st[1:] for y in alts(x)] or list(sub(t) if not steps and not fs else ())
    if any(mentions_err(f) for f in fs) or any(isinstance(y, T) and y.op == "get" and y.a[1] == K_("err") or isinstance(y, CMap) and K_("message") in y.d for y in vals):
        for x in [s] if steps or fs else sub(t):
            if isinstance(x, T):
                for n, f in (("plugins", plg), ("raw", raw), ("booked", bkd)):
                    if f(x):
                        noted.add(n)


def mentions_err(f):
    if isinstance(f, Kw):
        return f == K_("err")
    if not isinstance(f, Fn):
        return not isinstance(f, Prim)
    todo = [x for a in f.arities for x in a]
    while todo:
        x = todo.pop()
        if isinstance(x, Kw) and x == K_("err") or isinstance(x, Sym) and str(x) == "err":
            return True
        if isinstance(x, (list, tuple, set)):
            todo += list(x)
        if isinstance(x, MapF):
            todo += [z for y in x for z in y]
    return False


def shares(err):
    """does something printed come from an error"""
    def part(x):
        return isinstance(x, (T, Seq, CMap, Alt)) or isinstance(x, str) and not isinstance(x, (Kw, Sym)) and len(x) > 3
    ks = {hash(x) for x in sub(err) if part(x)}
    return lambda x: part(x) and hash(x) in ks


def resolution(r, seq, client):
    """each alternative of a resolved plugin: an error, or the functions found under the names of their stages"""
    e = seq.elem
    for cond, v in (e.alts if isinstance(e, Alt) else [((), e)]):
        if isinstance(v, T) and v.op == "thrown":
            continue
        if not isinstance(v, CMap) and place(v) != "plugin":
            return
        r.count("resolutions")
        d = v.d if isinstance(v, CMap) else {}
        xs = {k: d.get(K_(k + "-xf")) for k in ("raw", "booked")}
        xs = {k: x for k, x in xs.items() if x is not None and x is not GONE}
        failed = any(isinstance(t, T) and t.op == "completes" and not b for t, b in cond)
        if d.get(K_("err")) in (None, GONE):
            if failed:
                r.violate("resolve:error", "a plugin whose loading throws carries no error", None)
            elif not xs:
                r.violate("resolve:none", "a plugin without any function carries no error", None)
        for k, x in xs.items():
            other = "booked" if k == "raw" else "raw"
            names = {str(y) for y in sub(x) if isinstance(y, str) and str(y) in ("raw-xf", "booked-xf")}
            if names and k + "-xf" not in names:
                r.violate("resolve:" + k, "a plugin's %s-xf is run as its %s-xf" % (other, k), None)


def looked_up(r, vals, par, bkd, raw, site):
    """indexes returned by booking are looked up in what was booked"""
    for x in sub(vals):
        if not (isinstance(x, T) and x.op in ("nth", "get") and isinstance(x.a[1], T)):
            continue
        i = x.a[1]
        top = i
        while isinstance(top, T) and top.op in ("nth", "get") and not isinstance(top.a[0], str):
            if top.op == "get" and isinstance(top.a[0], T) and top.a[0].op == "elem":
                break
            top = top.a[0]
        if not (isinstance(top, T) and top.op == "get" and isinstance(top.a[0], T) and top.a[0].op == "elem"):
            continue
        s0 = lineage(top.a[0].a[0])[0]
        if not (bkd(s0) or is_data(s0, "book")):
            continue
        s, steps = lineage(x.a[0])
        if raw(s):
            r.count("lookups")
            if through(steps) != (par is not None):
                r.violate("lookup", "indexes of booked directives or errors are looked up in %s" % ("the parsed directives, not in the plugins' output that was booked" if par is not None else "other directives than those booked"), site)
        elif bkd(s):
            r.violate("lookup", "indexes of booked directives or errors are looked up in the booked directives", site)


def thrown_in(x):
    """is an error recorded because something threw (not merely made from values that involve exceptions)"""
    if isinstance(x, CMap):
        return any(thrown_in(y) for y in x.d.values())
    if isinstance(x, (Vec, Lst, tuple)):
        return any(thrown_in(y) for y in x)
    if isinstance(x, T):
        return x.op in ("throws", "thrown") or x.op in ("call", "str") and any(thrown_in(y) for y in x.a[1:])
    return False


def stage_threw(run, order, plg, kind):
    """did the stage end with an exception; the stages are told apart by what had been asked before"""
    for i, (t, b) in enumerate(order):
        if isinstance(t, T) and t.op == "completes" and b is False:
            prev = [x[0] for y, c in order[:i] for x in [stage_of(run, y, plg)] if x and c == (x[1] > 0)]
            booked = any(isinstance(x, T) and x.op == "succeeds" and x.a[0] == "book" for x, c in order[:i])
            if prev and prev[-1] == kind and booked == (kind == "booked"):
                return True
    return False


def stage_of(run, t, plg):
    """(stage, sign) of a decision about whether there are plugins of a stage"""
    if isinstance(t, T):
        for k in ("raw", "booked"):
            x = on(run, t, plg, k + "-xf")
            if x:
                return k, x
    return None


def strip(v):
    while isinstance(v, T) and v.op in ("vec", "doall"):
        v = v.a[0]
    return v


def through(steps):
    return any(s[0] == "xf" or s[0] == "reduce" for s in steps)


def ordered(r, what, steps, site):
    for s in steps:
        if s[0] not in KEEPS:
            r.violate("order:%s" % s[0], "%s are reordered or cut by %s" % (what, s[0]), site)


def describe(order):
    out = []
    for t, b in order:
        if isinstance(t, T) and t.op == "succeeds":
            out.append("%s %s" % (t.a[0], "succeeds" if b else "fails"))
        elif isinstance(t, T) and t.op == "completes":
            out.append("" if b else "a stage throws")
    return ", ".join(x for x in out if x)


def printed(r, what, trace, is_it, site):
    """are the reports of an error handed to the formatter or printed"""
    r.count("errors printed")
    for t in trace:
        if t[0] in ("request", "print") and any(is_it(x) for x in sub(t[1])):
            return
    if any(t[0] == "printing" for t in trace):
        r.violate("print:%s" % what, "%s are not shown" % what, site)
    else:
        r.undecide("no printing of %s found" % what)


def plugin_order(r, vals, runs, plg, site):
    """the composition of plugins in the order of the server's list"""
    for v, kind in zip(vals, ("raw", "booked")):
        if v is None or not runs[kind]:
            continue
        for x in sub(lineage(strip(v))[1]):
            if isinstance(x, T) and x.op == "splice":
                s, steps = lineage(x.a[0])
                if plg(s):
                    r.count("compositions")
                    ordered(r, "the %s plugins" % kind, steps, site)
            if isinstance(x, Seq) and plg(lineage(x)[0]):
                ordered(r, "the %s plugins" % kind, lineage(x)[1], site)
