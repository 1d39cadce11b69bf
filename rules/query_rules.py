"""C32, C33 and C34: what the client makes of a loaded ledger."""
import itertools
from lb import facts
from lb.clj import Client, T, CMap, Kw, Vec, Lst, Fn, Prim, Thrown, Stop, GONE, show, over
from lb.cljq import Query, Cell, items, lin, listy, mk

FILTERS, CORE = "limabean.core.filters", "limabean"
K = Kw


class Unknown(Exception):
    pass


class Other(Exception):
    """a date of other arguments"""


def client():
    return Client()


def fn(E, ns, name):
    n = E.c.ns.get(ns)
    if n is None or name not in n.defs:
        raise facts.CannotDecide("no %s/%s in the client" % (ns, name))
    return E.define(n, name)


def site(c, ns, name):
    n = c.ns.get(ns)
    d = n.defs.get(name) if n is not None else None
    return {"function": "%s/%s" % (ns, name), "file": n.path if n is not None and hasattr(n, "path") else ns, "line": getattr(d, "line", None)}


def run(r, E, what, f):
    """every path, or none if the evaluation stops"""
    try:
        return E.paths(f)
    except Stop as e:
        r.undecide("%s: %s" % (what, e))
    except (TypeError, AttributeError, IndexError, KeyError, ValueError) as e:
        r.undecide("%s: %s" % (what, e))
    return None


# ---- terms in a model -----------------------------------------------------------------------------------------------------------------------------
DATES = {"before?": lambda a, b: a < b, "after?": lambda a, b: a > b, "not-before?": lambda a, b: a >= b, "not-after?": lambda a, b: a <= b,
         "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "=": lambda a, b: a == b,
         ".isBefore": lambda a, b: a < b, ".isAfter": lambda a, b: a > b, ".isEqual": lambda a, b: a == b, ".equals": lambda a, b: a == b,
         "compare": lambda a, b: (a > b) - (a < b), ".compareTo": lambda a, b: (a > b) - (a < b)}


def value(t, m):
    """a term under an assignment of the unknown"""
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t.op == "call" and isinstance(t.a[0], T):
        k = (t.a[0], tuple(t.a[1]))
        if k in m:
            return m[k]
    if t.op == "call" and isinstance(t.a[0], str):
        n, args = t.a[0], tuple(t.a[1])
        short = n.rpartition("/")[2] or n
        if (n, args) in m:
            return m[n, args]
        if (short, args) in m:
            return m[short, args]
        if short == "local-date" and args and set(args) <= {x for k in m if isinstance(k, tuple) and k[0] == n for x in k[1]}:
            raise Other(show(t, 80))
        if short in DATES and (n.startswith("java-time") or n.startswith(".")):
            xs = [value(x, m) for x in args]
            if short.startswith("."):
                return DATES[short](xs[0], xs[1])
            return all(DATES[short](x, y) for x, y in zip(xs, xs[1:]))
    if t.op in ("call", "compare") and (t.op == "compare" or t.a[0] == "compare"):
        xs = [value(x, m) for x in (t.a if t.op == "compare" else t.a[1])]
        return DATES["compare"](*xs)
    if t.op == "nonempty":
        return bool(value(t.a[0], m))
    if t.op == "nil?":
        return value(t.a[0], m) is None
    if t.op == "=":
        return value(t.a[0], m) == value(t.a[1], m)
    if t.op in ("pos?", "neg?"):
        v = value(t.a[0], m)
        return v > 0 if t.op == "pos?" else v < 0
    if t.op in ("<", ">", "<=", ">="):
        return DATES[t.op](value(t.a[0], m), value(t.a[1], m))
    if t.op == "not":
        return not value(t.a[0], m)
    if t.op in ("zero", "pos"):
        v = number(t.a[0], m)
        return v == 0 if t.op == "zero" else v > 0
    if t.op in ("number", "lin"):
        return number(t, m)
    if t.op == "completes":
        return m.get("completes", True)
    raise Unknown(show(t, 80))


def number(t, m):
    l = lin(t)
    if l is None:
        raise Unknown(show(t, 80))
    return l[0] + sum(c * m[x] for x, c in l[1].items())


def truth(v):
    return v is not None and v is not False


def taken(order, m):
    """is the path the one of this assignment"""
    return all(truth(value(t, m)) == b for t, b in order)


def selects(r, c, what, paths, models, want, at):
    """the truth of the result against the expected one in every model"""
    if paths is None:
        return
    for m in models:
        hit = False
        for order, _, v in paths:
            try:
                if not taken(order, m):
                    continue
                got = None if isinstance(v, Thrown) else truth(value(v, m))
            except Unknown as e:
                r.undecide("%s depends on %s" % (what, e))
                return
            except Other:
                r.violate("filter:%s" % what, "%s compares with a date made of the wrong arguments, for %s" % (what, saying(m)), at)
                return
            hit = True
            r.count("situations of filters")
            w = want(m)
            if isinstance(v, Thrown) and w is not None:
                r.violate("filter:%s" % what, "%s fails %s" % (what, saying(m)), at)
                return
            if got != w:
                r.violate("filter:%s" % what, "%s %s %s" % (what, "selects" if got else "rejects" if got is False else "fails for", saying(m)), at)
                return
        if not hit:
            r.undecide("no path of %s for %s" % (what, saying(m)))


def saying(m):
    return m.get("say", "something")


# ---- C32 ------------------------------------------------------------------------------------------------------------------------------------------
def C32(ctx, r):
    r.explain = ("every path of each filter, evaluated on an item with and without the field, against the selection that its name promises, in every order of the dates "
                 "or relation of the names; the postings handed to inventory and journal, with the fields of their transaction, under all filters given")
    c = client()
    E = Query(c)
    date_filters(r, c, E)
    name_filters(r, c, E)
    text_filters(r, c, E)
    combinators(r, c, E)
    postings(r, c)
    if not r.violations and not r.undecided:
        r.floor("filters", 12, "filters of the client")


def applied(E, name, args, item):
    f = fn(E, FILTERS, name)
    return lambda E: E.call(E.call(f, list(args)), [item])


def local(args):
    return ("java-time.api/local-date", tuple(args))


def date_filters(r, c, E):
    D = T("date")
    cmps = {"date<": lambda d, x: d < x, "date<=": lambda d, x: d <= x, "date>": lambda d, x: d > x, "date>=": lambda d, x: d >= x}
    rel = {-1: "an item dated before", 0: "an item dated on", 1: "an item dated after"}
    for name, op in cmps.items():
        r.count("filters")
        at = site(c, FILTERS, name)
        for n in (1, 2, 3):
            args = [T("arg", i) for i in range(n)]
            ms = [{D: 10 + x, local(args): 10, "say": rel[x] + " the date given as %d argument(s)" % n} for x in (-1, 0, 1)]
            selects(r, c, name, run(r, E, name, applied(E, name, args, CMap({K("date"): D, K("acc"): "A"}))), ms, lambda m: op(m[D], 10), at)
        missing(r, c, E, name, [T("arg", 0)], "date", {local([T("arg", 0)]): 10}, at)
        bad_date(r, c, E, name, [T("arg", 0)], at)
    r.count("filters")
    at = site(c, FILTERS, "date>=<")
    for n in (1, 2, 3):
        a, b = [T("from", i) for i in range(n)], [T("to", i) for i in range(n)]
        ms = []
        for lo, hi in ((10, 20), (10, 10), (20, 10)):
            for d in (5, 10, 15, 20, 25):
                ms.append({D: d, local(a): lo, local(b): hi, "say": "an item dated %d for begin %d and end %d (%d arguments)" % (d, lo, hi, 2 * n)})
        selects(r, c, "date>=<", run(r, E, "date>=<", applied(E, "date>=<", a + b, CMap({K("date"): D}))), ms, lambda m: m[local(a)] <= m[D] < m[local(b)], at)
    missing(r, c, E, "date>=<", [T("arg", 0), T("arg", 1)], "date", {local([T("arg", 0)]): 10, local([T("arg", 1)]): 20}, at)
    bad_date(r, c, E, "date>=<", [T("arg", 0), T("arg", 1)], at)


def missing(r, c, E, name, args, field, m, at):
    """the field absent and nil"""
    for how, item in (("without the field", CMap({K("other"): 1})), ("whose field is nil", CMap({K(field): None}))):
        mm = dict(m)
        mm["say"] = "an item " + how
        selects(r, c, name, run(r, E, name, applied(E, name, args, item)), [mm], lambda m: False, at)


def bad_date(r, c, E, name, args, at):
    """an argument that is no date ends in an error for the user"""
    ps = run(r, E, name, lambda E: E.call(fn(E, FILTERS, name), list(args)))
    if ps is None:
        return
    fails = [p for p in ps if any(isinstance(t, T) and t.op == "completes" and b is False for t, b in p[0])]
    if not fails:
        return
    for order, _, v in fails:
        r.count("bad dates")
        if not isinstance(v, Thrown):
            r.violate("bad-date:%s" % name, "%s goes on with a date that could not be made" % name, at)
            return


def name_filters(r, c, E):
    accs = ["Assets", "Assets:Bank", "Assets:Bank:Savings", "Assets:Bank2", "Assets:Ban", "Liabilities", "X:Assets:Bank", "Assets:Bank:"]

    def sub(a, t):
        return a == t or a.startswith(t + ":")
    for name, rel in (("acc", lambda a, t: a == t), ("sub-acc", sub)):
        r.count("filters")
        at = site(c, FILTERS, name)
        targets = [[], ["Assets:Bank"], ["Liabilities", "Assets:Bank"], ["Assets:Bank", "Liabilities"], ["Assets"]]
        for ts in targets:
            for a in accs:
                m = {"say": "%s for %s" % (a, " ".join(ts) or "no account")}
                selects(r, c, name, run(r, E, name, applied(E, name, ts, CMap({K("acc"): a, K("cur"): "Assets:Bank"}))), [m], lambda m: any(rel(a, t) for t in ts), at)
        missing(r, c, E, name, ["Assets:Bank"], "acc", {}, at)
    r.count("filters")
    at = site(c, FILTERS, "cur")
    for a, b in (("CHF", "CHF"), ("CHF", "CHFX"), ("CHFX", "CHF"), ("USD", "CHF")):
        selects(r, c, "cur", run(r, E, "cur", applied(E, "cur", [b], CMap({K("cur"): a, K("acc"): b}))), [{"say": "%s for %s" % (a, b)}], lambda m: a == b, at)
    missing(r, c, E, "cur", ["CHF"], "cur", {}, at)


def text_filters(r, c, E):
    re_, x, y = T("re"), T("string", "field"), T("string", "other")
    for name, field, other in (("payee-match", "payee", "narration"), ("narration-match", "narration", "payee")):
        r.count("filters")
        at = site(c, FILTERS, name)
        ms = []
        for say, found, whole in (("a field without the pattern", False, False), ("a field with the pattern inside", True, False), ("a field that is the pattern", True, True)):
            m = {"say": say}
            for fld, v in ((x, (found, whole)), (y, (not found, not found))):
                m["re-seq", (re_, fld)] = (("match",) if v[0] else None)
                m["re-find", (re_, fld)] = ("match" if v[0] else None)
                m["re-matches", (re_, fld)] = ("match" if v[1] else None)
            ms.append(m)
        selects(r, c, name, run(r, E, name, applied(E, name, [re_], CMap({K(field): x, K(other): y}))), ms, lambda m: m["re-find", (re_, x)] is not None, at)
        missing(r, c, E, name, [re_], field, {}, at)
        # a field that is missing is not replaced by the other one
        m = dict(ms[0])
        m["say"] = "an item with the other field only"
        selects(r, c, name, run(r, E, name, applied(E, name, [re_], CMap({K(other): y}))), [m], lambda m: False, at)


def combinators(r, c, E):
    x = T("item")
    fs = [T("f", i) for i in range(3)]
    for name, want in (("every-f", all), ("some-f", any), ("none-f", lambda v: not any(v))):
        r.count("filters")
        at = site(c, FILTERS, name)
        for n in (0, 1, 2, 3):
            ms = []
            for vs in itertools.product((True, False), repeat=n):
                m = {(f, (x,)): v for f, v in zip(fs, vs)}
                m["say"] = "what is selected by %s of %d filters" % (", ".join(str(i + 1) for i, v in enumerate(vs) if v) or "none", n)
                m["vs"] = vs
                ms.append(m)
            selects(r, c, name, run(r, E, name, applied(E, name, fs[:n], x)), ms, lambda m: want(m["vs"]), at)


# -- which postings are looked at
def ledger():
    """directives of every kind; postings with and without fields of their own"""
    out = []

    def pst(i, **kw):
        d = {K("acc"): T("string", "acc%d" % i), K("units"): T("number", "u%d" % i), K("cur"): T("string", "cur%d" % i)}
        d.update({K(k): v for k, v in kw.items()})
        return CMap(d)

    def dct(kind, i, **kw):
        d = {K("dct"): K(kind), K("date"): T("fresh", "date%d" % i)}
        d.update({K(k): v for k, v in kw.items()})
        return CMap(d)
    P, N = T("string", "payee"), T("string", "narration")
    out.append(dct("open", 0, acc=T("string", "opened")))
    out.append(dct("txn", 1, payee=P, narration=N, flag="*", postings=Vec([pst(1), pst(2, flag="!"), pst(3, narration=T("string", "own"))])))
    out.append(dct("txn", 2, postings=Vec([pst(4), pst(5, payee=T("string", "own payee"))])))
    for i, k in enumerate(("price", "balance", "close", "commodity", "pad", "document", "note", "event", "query", "custom")):
        out.append(dct(k, 10 + i, postings=Vec([pst(10 + i)])))
    out.append(dct("txn", 3, narration=N, postings=Vec([])))
    out.append(dct("txn", 4, payee=P, postings=Vec([pst(6)])))
    return Vec(out)


def expected_postings(ds):
    out = []
    for d in ds:
        if d.d[K("dct")] == K("txn"):
            for p in d.d[K("postings")]:
                e = {k: d.d[k] for k in (K("date"), K("payee"), K("narration")) if k in d.d}
                e.update(p.d)
                out.append(e)
    return out


def same_posting(got, want):
    if not isinstance(got, CMap) or got.base is not None:
        return None
    g = {k: v for k, v in got.d.items() if v is not GONE and v is not None}
    for k, v in want.items():
        if g.get(k) != v:
            return k
    return ""


def postings(r, c):
    beans_acc = {"name-assets": "A", "name-liabilities": "L", "name-income": "I", "name-expenses": "E", "name-equity": "Q"}
    whole = ledger()
    fs = [T("f", 0), T("f", 1)]
    for name, roots, target in (("inventory", None, "limabean.core.inventory/build"), ("journal", None, "limabean.core.journal/build"),
                                ("balances", ("A", "L"), "limabean.core.inventory/build"), ("income-statement", ("I", "E"), "limabean.core.inventory/build")):
        for via in (CORE, "limabean.user"):
            if via not in c.ns or name not in c.ns[via].defs:
                continue
            for n in (0, 1, 2):
                at = site(c, via, name)
                selected(r, c, name, via, roots, target, n, fs[:n], beans_acc, whole, at)


def selected(r, c, name, via, roots, target, n, fs, options, whole, at):
    """the postings handed on are those of the transactions which every filter selects"""
    if n or roots:                   # fewer postings: every filter decides on every posting
        ds = Vec([d for d in whole if d.d[K("dct")] in (K("txn"), K("open"), K("pad"))][:3])
        if roots:
            ds = Vec(CMap({**d.d, K("postings"): Vec(CMap({**p.d, K("acc"): roots_of(p, roots, i)}) for i, p in enumerate(d.d[K("postings")]))}) if K("postings") in d.d else d for d in ds)
    else:
        ds = whole
    want_all = expected_postings(ds)
    got = {}

    def build(E, a):
        got["args"] = a
        E.trace.append(("build", list(a), 0))
        return T("fresh", "built")
    E = Query(c, {target: build, "limabean.core.registry/acc-booking": lambda E, a: T("booking", *a)})
    opts = CMap({K(k): v for k, v in options.items()})
    beans = CMap({K("directives"): ds, K("options"): opts, K("registry"): T("registry"), K("raw-directives"): Vec([])})

    def f(E):
        got.clear()
        g = fn(E, via, name)
        if via == CORE:
            v = E.call(g, [beans, Vec(fs)] if n else [beans])
        else:
            E.extern["limabean.user/*beans*"] = None
            v = E.call(g, list(fs))
        a = got.get("args")
        if a is None:
            return None
        xs = items(a[0])
        if xs is None:
            raise Stop("postings handed on are not known")
        bk = E.call(a[1], [T("string", "some account")]) if len(a) > 1 else None
        return (xs, bk, len(a))
    if via != CORE:
        # the beans of the session
        class Session(Query):
            def symbol(self, s, env, ns):
                return beans if str(s) == "*beans*" else super().symbol(s, env, ns)
        E = Session(c, {target: build, "limabean.core.registry/acc-booking": lambda E, a: T("booking", *a)})
    ps = run(r, E, name, f)
    if ps is None:
        return
    for order, _, v in ps:
        r.count("selections of postings")
        if isinstance(v, Thrown) or v is None:
            r.violate("postings:%s" % name, "%s does not get as far as its postings" % name, at)
            return
        xs, bk, na = v
        left = []
        said = {}
        for t, b in order:
            if isinstance(t, T) and t.op == "call" and t.a[0] in fs and len(t.a[1]) == 1:
                said[t.a[0], t.a[1][0]] = b
            else:
                r.undecide("%s: selection depends on %s" % (name, show(t, 80)))
                return
        for w in want_all:
            keep = True
            if roots and not any(w[K("acc")] == x or w[K("acc")].startswith(x + ":") for x in roots):
                keep = False
            for fl in fs:
                ans = [b for (g, it), b in said.items() if g == fl and same_posting(it, w) == ""]
                if ans and not ans[0]:
                    keep = False
                if not ans and keep:
                    keep = None if keep else False
            left.append((w, keep))
        must = [w for w, k in left if k]
        bad = None
        i = 0
        for g in xs:
            if i < len(must):
                d = same_posting(g, must[i])
                if d is None:
                    r.undecide("%s: a posting is not known" % name)
                    return
                if d == "":
                    i += 1
                    continue
                near = d
                if isinstance(g, CMap) and g.d.get(K("units")) == must[i].get(K("units")):
                    bad = "the :%s of a posting is not that of %s" % (near, "the posting" if near in ("acc", "cur", "units", "flag") else "the posting or else of its transaction")
                    break
            bad = "a posting which %s is handed on, or out of order" % ("some filter rejects or that is in no transaction" if n or roots else "is in no transaction")
            break
        if bad is None and i < len(must):
            bad = "a posting that every filter selects is left out"
        if bad is None and any(k is None for _, k in left):
            bad = "a posting is left out without asking every filter"
        if bad:
            r.violate("postings:%s" % name, "%s: %s" % (name, bad), at)
            return
        if na > 1 and bk != T("booking", T("registry"), T("string", "some account")):
            r.violate("booking:%s" % name, "%s does not book accounts as the registry says: %s" % (name, show(bk, 80)), at)
            return


def roots_of(p, roots, i):
    other = "Q:" + roots[0]
    return {0: roots[0] + ":X", 1: roots[1], 2: other}.get(i % 3)


# ---- C33: inventory, journal and rollup -----------------------------------------------------------------------------------------------------------
INV, JOURNAL, ROLLUP, REGISTRY = "limabean.core.inventory", "limabean.core.journal", "limabean.core.rollup", "limabean.core.registry"
MERGE, APPEND = ("strict", "strict-with-size", "fifo", "lifo", "hifo"), ("none",)


def C33(ctx, r):
    r.explain = ("every path of building an inventory, a journal and a rollup from postings of unknown amounts, in every pattern of equal and different accounts, currencies and costs; "
                 "the sums that result, as linear forms of the amounts, against the sums over the postings, in every case of sums that are zero")
    c = client()
    E = Query(c)
    inventories(r, c, E)
    collapsed(r, c, E)
    journals(r, c, E)
    rollups(r, c, E)
    registries(r, c, E)
    if not r.violations and not r.undecided:
        r.floor("patterns of postings", 100, "patterns of postings")


U = [T("number", "u%d" % i) for i in range(4)]
GRID = (0, 1, -1, 2, 5)


def cost(**kw):
    d = {"date": "2024-05-06", "cur": "USD", "per-unit": 10}
    d.update(kw)
    return CMap({K(k): v for k, v in d.items() if v is not None})


COSTS = [None, cost(), cost(date="2023-05-06"), cost(cur="EUR"), cost(**{"per-unit": 11}), cost(label="lot"), cost(merge=True)]
COST_KEYS = ("date", "cur", "per-unit", "label", "merge")


def pst(i, acc, cur, k=None, **kw):
    d = {K("date"): "2024-07-%02d" % (i + 1), K("acc"): acc, K("units"): U[i], K("cur"): cur, K("narration"): T("string", "narration%d" % i)}
    if k is not None:
        d[K("cost")] = k
    d.update({K(x): v for x, v in kw.items()})
    return CMap(d)


def models(n, grid=GRID):
    for vs in itertools.product(grid, repeat=n):
        yield dict(zip(U, vs))


def patterns():
    """accounts, currencies and costs of one, two and three postings"""
    A, B = "Assets:B", "Assets:A"
    for k in COSTS:
        yield [(A, "X", k)]
    for a in (A, B):
        for cu in ("X", "W"):
            for k1, k2 in itertools.product(COSTS, repeat=2):
                if k1 is COSTS[0] or k1 is COSTS[1] or k2 is COSTS[1] or k1 is k2:
                    yield [(A, "X", k1), (a, cu, k2)]
    short = [None, COSTS[1], COSTS[2]]
    for a2, a3 in ((A, A), (A, B), (B, A), (B, B)):
        for c2, c3 in (("X", "X"), ("X", "W"), ("W", "X")):
            for ks in itertools.product(short, repeat=3):
                if a2 == A and a3 == A and c2 == "X" or ks[0] is ks[1] or ks[1] is ks[2] or ks[0] is ks[2]:
                    if (a2, a3) == (A, A) or (c2, c3) == ("X", "X"):
                        yield [(A, "X", ks[0]), (a2, c2, ks[1]), (a3, c3, ks[2])]


def ckey(k):
    return None if k is None else tuple(k.d.get(K(x)) for x in COST_KEYS)


def positions_of(ps, m, method):
    """positions expected per account: cost and currency with the sum of units, without those of sum zero"""
    out = {}
    for i, (a, cu, k) in enumerate(ps):
        kk = (cu, ckey(k)) + ((i,) if method in APPEND and k is not None else ())
        out.setdefault(a, {}).setdefault(kk, 0)
        out[a][kk] += m[U[i]]
    return {a: sorted(((x[0], repr(x[1])), v) for x, v in d.items() if v) for a, d in out.items() if any(d.values())}


def read_positions(v, m):
    xs = items(v)
    if xs is None:
        raise Unknown(show(v, 60))
    out = []
    for p in xs:
        if not isinstance(p, CMap):
            raise Unknown(show(p, 60))
        k = p.d.get(K("cost"))
        k = None if k is GONE else k
        out.append(((p.d.get(K("cur")), repr(ckey(k))), number(p.d.get(K("units")), m)))
    return sorted(out)


def judged(r, what, name, paths, ms, read, want, at, say):
    """what is read off the result on the path of each assignment against what is expected"""
    if paths is None:
        return False
    for m in ms:
        for order, _, v in paths:
            try:
                if not taken(order, m):
                    continue
                if isinstance(v, Thrown):
                    got = "an exception"
                else:
                    got = read(v, m)
            except Unknown as e:
                r.undecide("%s depends on %s" % (what, e))
                return False
            w = want(m)
            r.count("situations of sums")
            if got != w:
                r.violate("%s" % name, "%s of %s: %s instead of %s" % (what, say(m), got, w), at)
                return False
    return True


def described(ps, m):
    return ", ".join("%s %s %s%s" % (a, m[U[i]], cu, "" if k is None else " {%s}" % ", ".join(str(x) for x in ckey(k) if x is not None)) for i, (a, cu, k) in enumerate(ps))


def inventories(r, c, E):
    at = site(c, INV, "build")
    for method in MERGE + APPEND:
        bk = Prim("booking", lambda E, a, method=method: K(method))
        for n, ps in enumerate(patterns()):
            if method not in ("strict", "none") and len(ps) > 1 and n % 9:
                continue
            r.count("patterns of postings")
            v = Vec(pst(i, *p) for i, p in enumerate(ps))
            paths = run(r, E, "inventory", lambda E: E.call(fn(E, INV, "build"), [v, bk]))
            grid = GRID if len(ps) < 3 else (0, 1, -1)

            def read(v, m):
                xs = items(v)
                if xs is None:
                    raise Unknown(show(v, 60))
                return {a: read_positions(p, m) for a, p in xs}
            if not judged(r, "inventory", "inventory:%s" % method, paths, models(len(ps), grid), read, lambda m: positions_of(ps, m, method), at,
                          lambda m: "%s booked %s" % (described(ps, m), method)):
                break
    # accounts of different methods, each asked for its own
    bk = Prim("booking", lambda E, a: K("none") if a[0] == "N" else K("strict"))
    for order in (("N", "S", "N", "S"), ("S", "N", "N", "S"), ("N", "N", "S", "S")):
        ps = [(a, "X", COSTS[1]) for a in order]
        v = Vec(pst(i, *p) for i, p in enumerate(ps))
        paths = run(r, E, "inventory", lambda E: E.call(fn(E, INV, "build"), [v, bk]))

        def want(m):
            out = {"N": positions_of(ps, m, "none").get("N"), "S": positions_of(ps, m, "strict").get("S")}
            return {a: x for a, x in out.items() if x}
        judged(r, "inventory", "inventory:methods", paths, models(4, (0, 1, -1)), lambda v, m: {a: read_positions(p, m) for a, p in items(v)}, want, at,
               lambda m: "accounts of different booking methods")


def collapsed(r, c, E):
    """positions reduced to units"""
    ps = [("A", "X", None), ("A", "X", COSTS[1]), ("A", "W", COSTS[1])]
    v = Vec(CMap({K("units"): U[i], K("cur"): cu, **({K("cost"): k} if k is not None else {}), K("cell/type"): K("position")}) for i, (a, cu, k) in enumerate(ps))

    def sums(m):
        out = {}
        for i, (a, cu, k) in enumerate(ps):
            out[cu] = out.get(cu, 0) + m[U[i]]
        return out
    if "positions->units" in c.ns[INV].defs:
        paths = run(r, E, "positions->units", lambda E: E.call(fn(E, INV, "positions->units"), [v]))
        judged(r, "units", "units", paths, models(3, (0, 1, -2)), lambda v, m: [(x[0], n) for x, n in read_positions(v, m) if n], lambda m: sorted((k, n) for k, n in sums(m).items() if n),
               site(c, INV, "positions->units"), lambda m: described(ps, m))
    if "positions->units-of" in c.ns[INV].defs:
        for cu in ("X", "W", "V"):
            paths = run(r, E, "positions->units-of", lambda E: E.call(fn(E, INV, "positions->units-of"), [v, cu]))
            judged(r, "units of %s" % cu, "units-of", paths, models(3, (0, 1, -2)), lambda v, m: number(v, m), lambda m: sums(m).get(cu, 0), site(c, INV, "positions->units-of"), lambda m: described(ps, m))


def journals(r, c, E):
    at = site(c, JOURNAL, "build")
    for ps in patterns():
        if any(k is not None and k is not COSTS[1] for _, _, k in ps):
            continue
        r.count("patterns of postings")
        v = Vec(pst(i, *p, **({"bal": "own"} if not i else {})) for i, p in enumerate(ps))
        paths = run(r, E, "journal", lambda E: E.call(fn(E, JOURNAL, "build"), [v]))

        def read(v, m):
            xs = items(v)
            if xs is None:
                raise Unknown(show(v, 60))
            out = []
            for p in xs:
                if not isinstance(p, CMap):
                    raise Unknown(show(p, 60))
                out.append((p.d.get(K("date")), p.d.get(K("acc")), p.d.get(K("cur")), number(p.d.get(K("units")), m), p.d.get(K("narration")),
                            [(x[0], n) for x, n in read_positions(p.d.get(K("bal")), m)]))
            return out

        def want(m):
            out, bal = [], {}
            for i, (a, cu, k) in enumerate(ps):
                bal[cu] = bal.get(cu, 0) + m[U[i]]
                out.append(("2024-07-%02d" % (i + 1), a, cu, m[U[i]], T("string", "narration%d" % i), sorted((x, n) for x, n in bal.items() if n)))
            return out
        if not judged(r, "journal", "journal", paths, models(len(ps), GRID if len(ps) < 3 else (0, 1, -1)), read, want, at, lambda m: described(ps, m)):
            break


def rollups(r, c, E):
    at = site(c, ROLLUP, "build")
    shapes = [["A:B"], ["A:B", "A:C"], ["A", "A:B"], ["A:B:C", "A:B", "D"], ["A:B:C", "A:BC"], ["A:B:C:D", "A:E", "A:B:F"]]
    for accs in shapes:
        for other in (False, True):
            r.count("patterns of postings")
            inv = CMap({a: Vec([CMap({K("units"): U[i], K("cur"): "X"})] + ([CMap({K("units"): T("number", "other"), K("cur"): "W"})] if other else [])) for i, a in enumerate(accs)})
            paths = run(r, E, "rollup", lambda E: E.call(fn(E, ROLLUP, "build"), [inv, "X"]))

            def read(v, m):
                xs = items(v)
                if xs is None:
                    raise Unknown(show(v, 60))
                out = {}
                for a, e in xs:
                    if not isinstance(e, CMap):
                        raise Unknown(show(e, 60))
                    row = {}
                    for k in ("item", "total"):
                        x = e.d.get(K(k))
                        if x is not None and x is not GONE:
                            row[k] = number(x[0] if listy(x) else x, m)
                    out[a] = (row.get("item"), row.get("total", row.get("item")))
                return out

            def want(m):
                its = {a: m[U[i]] for i, a in enumerate(accs) if m[U[i]]}
                out = {}
                for a, n in its.items():
                    parts = a.split(":")
                    for j in range(1, len(parts) + 1):
                        b = ":".join(parts[:j])
                        out[b] = (its.get(b), sum(x for y, x in its.items() if y == b or y.startswith(b + ":")))
                return out
            ms = [dict(m, **{}) for m in models(len(accs), (0, 1, -1, 2))]
            for m in ms:
                m[T("number", "other")] = 7
            if not judged(r, "rollup", "rollup", paths, ms, read, want, at, lambda m: ", ".join("%s %s" % (a, m[U[i]]) for i, a in enumerate(accs))):
                return
    # the currency of a rollup: the one that most accounts hold
    if "rollup" in c.ns[CORE].defs:
        got = []

        def build(E, a):
            got.append(a[1])
            return T("fresh", "rollup")
        E2 = Query(c, {ROLLUP + "/build": build})
        for holds, best in (({}, None), ({"A": "X"}, "X"), ({"A": "X", "B": "W", "C": "W"}, "W"), ({"A": "XW", "B": "X"}, "X"), ({"A": "WX", "B": "X", "C": "V"}, "X"), ({"A": "XXX", "B": "W", "C": "W"}, "W")):
            inv = CMap({a: Vec(CMap({K("units"): T("number", a + str(i)), K("cur"): cu}) for i, cu in enumerate(cs)) for a, cs in holds.items()})
            del got[:]
            paths = run(r, E2, "rollup", lambda E: E.call(fn(E, CORE, "rollup"), [inv]))
            r.count("currencies of rollups")
            if any(isinstance(v, Thrown) for _, _, v in paths or ()):
                r.violate("rollup:fails", "rollup of accounts holding %s ends in an exception" % (holds or "nothing"), site(c, CORE, "rollup"))
                return
            if not holds:
                continue
            if paths is not None and got and any(x != best for x in got):
                if all(isinstance(x, str) for x in got):
                    r.violate("rollup:currency", "rollup of accounts holding %s is for %s, not for the most used %s" % (holds, got[0], best), site(c, CORE, "rollup"))
                    return
                r.undecide("currency of a rollup: %s" % show(got[0], 80))


def registries(r, c, E):
    """booking method of each account"""
    at = site(c, REGISTRY, "acc-booking")

    def dct(kind, **kw):
        return CMap({K("dct"): K(kind), **{K(k.replace("_", "-")): v for k, v in kw.items()}})
    for option in (None, "fifo"):
        ds = Vec([dct("open", acc="A", booking=K("none")), dct("open", acc="B"), dct("open", acc="C", booking=K("lifo")), dct("close", acc="C"),
                  dct("txn", postings=Vec([dct("x", acc="B", cur="X")]))])
        opts = CMap({K("booking"): K(option)} if option else {})
        for acc, want in (("A", "none"), ("B", option or "strict"), ("C", "lifo"), ("D", option or "strict")):
            paths = run(r, E, "registry", lambda E: E.call(fn(E, REGISTRY, "acc-booking"), [E.call(fn(E, REGISTRY, "build"), [ds, opts]), acc]))
            for order, _, v in paths or ():
                r.count("booking methods of accounts")
                if isinstance(v, T):
                    r.undecide("booking method of an account: %s" % show(v, 80))
                elif v != K(want):
                    r.violate("registry:booking", "account %s is taken to be booked %s instead of %s" % (
                        {"A": "opened with :none", "B": "opened without a method", "C": "opened with :lifo", "D": "never opened"}[acc], show(v, 40) if not isinstance(v, Thrown) else "never", want), at)
                    return


# ---- C34: spans for directives that plugins made ----------------------------------------------------------------------------------------------------
SPANS, POD, FORMAT = "limabean.adapter.synthetic-spans", "limabean.adapter.pod", "limabean.core.format"


def C34(ctx, r):
    r.explain = ("every path of attaching synthetic spans, over lists of directives of all kinds with and without provenance: the texts asked for, in which order, "
                 "and the directive or posting to which the span of each text is attached")
    c = client()
    got = {}

    def create(E, a):
        xs = items(a[-1])
        if xs is None:
            raise Stop("requests for spans are not known")
        got["asked"] = xs
        return Vec(T("fresh", "span", i) for i in range(len(xs)))
    E = Query(c, {POD + "/create-synthetic-spans": create})
    at = site(c, SPANS, "merge-with-provenance")
    kinds = ("price", "balance", "open", "close", "commodity", "pad", "document", "note", "event", "query", "custom")

    def simple(i, kind, prov):
        d = {K("dct"): K(kind), K("date"): T("fresh", "date", i), K("acc"): T("string", "acc", i), K("cur"): T("string", "cur", i), K("units"): T("number", ("u", i))}
        if prov:
            d[K("provenance")] = Vec(["plugin"])
        return CMap(d)

    def txn(i, prov, n):
        d = {K("dct"): K("txn"), K("date"): T("fresh", "date", i), K("flag"): "*", K("payee"): T("string", "payee", i),
             K("postings"): Vec(CMap({K("acc"): T("string", "acc", (i, j)), K("units"): T("number", ("u", i, j)), K("cur"): T("string", "cur", (i, j))}) for j in range(n))}
        if prov:
            d[K("provenance")] = Vec(["plugin"])
        return CMap(d)
    lists = [[]]
    for k in kinds:
        lists += [[simple(0, k, True)], [simple(0, k, False)]]
    for n in (0, 1, 2, 3):
        lists += [[txn(0, True, n)], [txn(0, False, n)]]
    for a, b, d in itertools.product((True, False), repeat=3):
        lists += [[txn(0, a, 2), simple(1, "open", b), txn(2, d, 1)], [simple(0, "note", a), txn(1, b, 3), txn(2, d, 2)], [simple(0, "price", a), simple(1, "pad", b), simple(2, "custom", d)]]
    for ds in lists:
        def f(E):
            got.clear()
            v = E.call(fn(E, SPANS, "merge-with-provenance"), [Vec(ds), T("pod")])
            return v, got.get("asked")
        paths = run(r, E, "spans", f)
        for order, _, v in paths or ():
            r.count("lists of directives")
            if isinstance(v, Thrown):
                r.violate("spans:fails", "spans for %s end in an exception" % naming(ds), at)
                return
            out, asked = v
            bad = attached(ds, items(out), asked or [])
            if isinstance(bad, Unknown):
                r.undecide("spans: %s" % bad)
                return
            if bad:
                r.violate("spans:%s" % bad[0], "%s: %s" % (naming(ds), bad[1]), at)
                return
    if not r.violations and not r.undecided:
        r.floor("lists of directives", 20, "lists of directives")


def naming(ds):
    return "directives " + ", ".join("%s%s" % (d.d[K("dct")], " made by a plugin" if K("provenance") in d.d else "") for d in ds)


def mentions(t, x):
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if isinstance(y, T):
            if y == x:
                return True
            todo += list(y.a)
        elif isinstance(y, CMap):
            todo += list(y.d.values())
        elif isinstance(y, (tuple, list)):
            todo += list(y)
    return False


def attached(ds, out, asked):
    if out is None:
        return Unknown("result is not a known list")
    if len(out) != len(ds):
        return ("lost", "%d directives come back" % len(out))
    want = []
    for i, d in enumerate(ds):
        if K("provenance") in d.d:
            want.append((i, None))
            if d.d[K("dct")] == K("txn"):
                want += [(i, j) for j in range(len(d.d[K("postings")]))]
    if len(asked) != len(want):
        return ("asked", "%d spans are asked for, for %d directives and postings" % (len(asked), len(want)))
    place = {w: n for n, w in enumerate(want)}
    for n, (i, j) in enumerate(want):
        q = asked[n]
        text = q.d.get(K("content")) if isinstance(q, CMap) else None
        if text is None:
            return ("asked", "a span without content is asked for")
        x = ds[i].d[K("date")] if j is None else ds[i].d[K("postings")][j].d[K("acc")]
        if not mentions(text, x):
            if any(mentions(text, y) for k, e in enumerate(ds) for y in [e.d[K("date")]] + [p.d[K("acc")] for p in e.d.get(K("postings"), ())]) :
                return ("text", "the text of a %s is that of another" % ("directive" if j is None else "posting"))
            if isinstance(text, T) and text.op == "text" and all(isinstance(y, (str, int, float)) or y is None for y in text.a):
                return ("text", "the text of a %s says nothing of it" % ("directive" if j is None else "posting"))
            return Unknown("text of a span: %s" % show(text, 80))
    for i, (d, o) in enumerate(zip(ds, out)):
        if not isinstance(o, CMap) or o.base is not None:
            return Unknown("a directive that comes back: %s" % show(o, 60))
        g = {k: v for k, v in o.d.items() if v is not GONE}
        sp = g.pop(K("span-p"), None)
        wsp = T("fresh", "span", place[i, None]) if (i, None) in place else None
        if sp != wsp:
            return ("directive", "directive %d gets %s" % (i + 1, "the span of another text" if sp is not None else "no span"))
        ps, ops = d.d.get(K("postings")), g.get(K("postings"))
        if ps is not None:
            ops = items(ops)
            if ops is None or len(ops) != len(ps):
                return ("posting", "postings of directive %d are lost" % (i + 1))
            for j, (p, q) in enumerate(zip(ps, ops)):
                h = {k: v for k, v in q.d.items() if v is not GONE}
                psp = h.pop(K("span-p"), None)
                if psp != (T("fresh", "span", place[i, j]) if (i, j) in place else None):
                    return ("posting", "posting %d of directive %d gets %s" % (j + 1, i + 1, "the span of another text" if psp is not None else "no span"))
                if h != p.d:
                    return ("changed", "posting %d of directive %d is changed" % (j + 1, i + 1))
            g.pop(K("postings"))
        if g != {k: v for k, v in d.d.items() if k != K("postings")}:
            return ("changed", "directive %d is changed" % (i + 1))
    return None
