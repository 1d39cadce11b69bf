"""Rules over the booking transition system: what one directive does, situation by situation."""
from fractions import Fraction
from engine.terms import *
from lb.texts import text_of, text_truth
from lb.booking import num, deep, settle, truth, num, last
from lb.ctx import where
from lb.judge import ABSENT as ABSENT_, Judge, Diff, alpha, diff, rewrite, sh, KNOWN_OPS, TRANSFORMS
from lb.spec import S
from lb.norm import norm
from lb import facts

ANY = mk("any!")
SIMPLE = ("Price", "Commodity", "Document", "Note", "Event", "Query", "Custom")
BOOK_OPS = {"lv", "lam", "bv", "vupd", "loopout", "after", "default", "ty", "firstidx", "first", "poly", "prod", "one", "strip_prefix", "any!"}


class BookJudge:
    """terms over the booking state, the directive and the booking engine are settled; anything else is not"""

    def __init__(self, B):
        names = {}
        for c in B.I.calls:
            names[c["name"]] = c["path"]
        self.ext = {n for n, p in names.items() if crate(p) in ("limabean_booking", "beancount_parser_lima")}
        self.ext |= {"default", "limabean_booking::book", "limabean_booking::is_supported_method", "slice"}

    def opaque(self, t):
        bad = []
        for x in subterms(t):
            if x.op == "call":
                if x.a[0] not in self.ext and last(x.a[0]) not in TRANSFORMS and not x.a[0].startswith("Decimal::"):
                    bad.append(x)
            elif x.op not in KNOWN_OPS and x.op not in BOOK_OPS:
                bad.append(x)
        return bad

    def verdict(self, d):
        return "unknown" if self.opaque(d.act) or reshaped(d.act, d.exp) or any(self.opaque(s) for s in forced_scruts(d.pc)) else "differs"


def reshaped(a, e):
    """values of different types: the data is laid out in another way than this analysis expects"""
    if e.op in ("adt", "tup") and a.op in ("adt", "tup"):
        return a.op != e.op or (a.a[0] != e.a[0] if a.op == "adt" else len(a.a) != len(e.a))
    return False


def forced_scruts(pc):
    return list(forced(pc)) if pc is not TRUE else []


def numeric(x, env):
    """a condition on the numbers of a situation that is left undecided although all of them are known"""
    return bool(env) and x.op in ("lt", "eq", "case", "call") and any(y in env for y in subterms(x))


def crate(p):
    p = p.lstrip("<&")
    return p.split("::")[0].split("<")[0].strip()


class Row:
    def __init__(self, name, variant, asm, exp, env=None):
        self.name, self.variant, self.asm, self.exp, self.env = name, variant, asm, exp, env


class Table:
    """all rows of the transition table of one directive, with what is expected of each part of the state"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.B = ctx.B
        self.judge = BookJudge(self.B)

    # ---- terms ---------------------------------------------------------------------------------
    def report(self, idx=None, related=None):
        return self.B.A(self.B.REP, idx=self.B.element() if idx is None else idx, related=ANY if related is None else related)

    def one_error(self, idx=None, related=None):
        return cat(self.B.lv("errors"), seq(self.report(idx, related)))

    def entry(self, variant):
        B = self.B
        e = B.e
        return B.A(B.BDIR, idx=B.idx, date=fld("", "date", e), tags=fld("", "tags", e), links=fld("", "links", e),
                   metadata=fld("", "metadata", e), variant=variant)

    def bv(self, variant, payload):
        B = self.B
        return B.A(B.BV, variant, **{"_0": payload}) if False else adt(B.BV, variant, ("0",), (payload,))

    def bty(self, name):
        for p in self.B.p.adts:
            if p.startswith("api::types::booked::") and last(p) == name:
                return p
        raise facts.CannotDecide("type %s of booked directives not found" % name)

    def ab(self, base, **kw):
        """an account builder like base but for the given fields"""
        B = self.B
        fs = B.p.adts[B.AB]["variants"][0]["fields"]
        for k in kw:
            if k not in [n for n, _ in fs]:
                raise facts.CannotDecide("account state has no field %s" % k)
        return B.A(B.AB, **{n: kw.get(n, fld("", n, base)) for n, _ in fs})

    def acc_update(self, accs, acc, base=None, **kw):
        return mk("mins", accs, acc, self.ab(base if base is not None else mk("mval", accs, acc), **kw))

    def some(self, x):
        return some(x)

    # ---- comparing ------------------------------------------------------------------------------
    def act(self, role, row):
        return self.B.row(role, row.variant, row.asm, row.env)

    def diffs(self, role, row, exp):
        a = norm(self.act(role, row))
        e = norm(exp)
        return diff(a, e)

    def appended(self, role, row):
        """what a situation appends to a list: [(condition, [items] or None)]"""
        lvt = self.B.lv(role)
        t = norm(self.act(role, row))
        out = []

        def go(x, pc):
            if x.op == "case":
                s, it, d = case_items(x)
                for l, y in it.items():
                    go(y, AND(pc, eqlabel(s, l)))
                if d is not None:
                    go(d, pc)
                return
            if x is lvt:
                out.append((pc, []))
            elif x.op == "cat" and x.a[0] is lvt and all(y.op == "seq" for y in x.a[1:]):
                out.append((pc, [z for y in x.a[1:] for z in y.a]))
            elif x.op == "cat" and (x.a[0].op == "vupd" or x.a[0] is lvt) and all(y.op in ("seq", "case") for y in x.a[1:]):
                rest = x.a[1:]
                if all(y.op == "seq" for y in rest):
                    out.append((pc, [z for y in rest for z in y.a]))
                else:
                    y = [z for z in rest if z.op == "case"][0]
                    s, it, d = case_items(y)
                    for l, z in it.items():
                        go(cat(*[z if q is y else q for q in x.a]), AND(pc, eqlabel(s, l)))
                    if d is not None:
                        go(cat(*[d if q is y else q for q in x.a]), pc)
            elif x.op == "vupd":
                out.append((pc, []))
            else:
                out.append((pc, None))
        go(t, TRUE)
        return out


# ---- situations ------------------------------------------------------------------------------------
def opt_is(t, l):
    return (mk("discr", OPT, t), l)


def table(ctx):
    if not hasattr(ctx, "_table"):
        ctx._table = Table(ctx)
    return ctx._table


def site(ctx):
    return where(ctx.B.site)


def judge_diffs(ctx, r, T, label, ds, keep=lambda d: True):
    for d in ds:
        if not keep(d):
            continue
        p = ".".join(map(str, d.path))
        if T.judge.verdict(d) == "differs":
            r.violate("%s:%s" % (label, p), "%s: %s is %s where %s is expected%s" % (label, p or "the new value", sh(d.act), sh(d.exp), cond(d.pc)), site(ctx))
        else:
            r.undecide("%s: %s is computed in a way this analysis cannot relate to the expected value: %s" % (label, p, sh(d.act)))


def cond(pc):
    if pc is TRUE:
        return ""
    xs = ["%s=%s" % (sh(s, 60), l) for s, l in sorted(forced(pc).items(), key=lambda x: x[0].size)]
    return " (when %s)" % ", ".join(xs[:4]) if xs else ""


def expect_count(ctx, r, T, label, row, role, ns, what):
    """how many items a situation appends"""
    for pc, items in T.appended(role, row):
        r.count("situations")
        bad = [x for x in forced_scruts(pc) if T.judge.opaque(x) or numeric(x, row.env)]
        if items is None or (bad and len(items) not in ns):
            r.undecide("%s: what is appended to %s is not understood%s" % (label, role, cond(pc)))
        elif len(items) not in ns:
            r.violate("%s:%s" % (label, role), "%s: %d %s where %s expected%s" % (
                label, len(items), what, " or ".join(map(str, sorted(ns))), cond(pc)), site(ctx))


def field_diff(names):
    s = set(names)
    return lambda d: any(x in s for x in d.path)


# ---- rows --------------------------------------------------------------------------------------------
def simple_rows(T):
    for v in SIMPLE:
        yield Row(v.lower(), v, [], {"booked": [T.entry(T.bv(v, T.B.payload(v)))]})


def open_ok(T):
    B = T.B
    acc = fld("", "acc", B.payload("Open"))
    return Row("open of a new account", "Open", B.state(acc, "never"), {}), acc


def close_ok(T):
    B = T.B
    acc = fld("", "acc", B.payload("Close"))
    return Row("close of an open account", "Close", B.state(acc, "open"), {}), acc


def pad_parts(T):
    B = T.B
    v = B.payload("Pad")
    return v, fld("", "acc", v), fld("", "source", v)


def pad_ok(T, old="None"):
    B = T.B
    v, acc, src = pad_parts(T)
    asm = B.state(acc, "open") + B.state(src, "open") + [opt_is(B.af(acc, "pad"), old)]
    return Row("pad of an open account" if old == "None" else "second pad of an account", "Pad", asm, {})


def bal_parts(T):
    B = T.B
    v = B.payload("Balance")
    return v, fld("", "acc", v)


def currency_ok(T, acc, cur, how):
    B = T.B
    al = B.af(acc, "allowed_currencies")
    if how == "any":
        return [(isempty(al), 1)]
    return [(isempty(al), 0), (mk("contains", al, cur), 1 if how == "listed" else 0)]


def pad_refs(T, acc):
    """indexes and entries of the pad pending for an account"""
    B = T.B
    p = fld("Some", "0", B.af(acc, "pad"))
    pi, pel = fld("", "0", p), fld("", "1", p)
    b = B.lv("booked")
    e0, e1 = mk("index", b, pi), mk("index", b, add(pi, K(1)))
    src = fld("", "source", fld("Pad", "0", fld("", "variant", e0)))
    return pi, pel, e0, e1, src


def bal_row(T, pad, cur="any", tol=None, env=None, name=""):
    B = T.B
    v, acc = bal_parts(T)
    asm = B.state(acc, "open") + currency_ok(T, acc, fld("", "cur", v), cur) + [opt_is(B.af(acc, "pad"), pad)]
    if tol is not None:
        asm.append(opt_is(fld("", "tolerance", v), tol))
    if pad == "Some":
        pi, pel, e0, e1, src = pad_refs(T, acc)
        b = B.lv("booked")
        asm += [(lt(pi, length(b)), 1), (lt(add(pi, K(1)), length(b)), 1),
                (mk("discr", B.BV, fld("", "variant", e0)), "Pad"), (mk("discr", B.BV, fld("", "variant", e1)), "Transaction"),
                (mk("has", B.lv("accounts"), src), 1), (eq(acc, src), 0)]
    return Row("balance of an open account" + name, "Balance", asm, {}, env)


def over(x, m):
    """a total over all of m"""
    c = x.a[0]
    while c.op == "comp":
        s = c.a[1]
        while s.op in ("unord", "sorted", "rev"):
            s = s.a[0]
        if s is m:
            return True
        c = s
    return False


def rollups(T):
    """the terms that total accounts in a balance assertion"""
    B = T.B
    v, acc = bal_parts(T)
    out = []
    for role in ("accounts", "errors", "booked"):
        t = B.row(role, "Balance", B.state(acc, "open"))
        for x in subterms(t):
            if x.op == "sum" and x not in out and over(x, B.lv("accounts")):
                out.append(x)
    return out


def margin_env(T, u, R, tol, scale, mult):
    """valuation of the numbers a balance assertion looks at"""
    B = T.B
    v, acc = bal_parts(T)
    units = fld("", "units", v)
    env = {units: Fraction(u)}
    for s in rollups(T):
        env[s] = Fraction(R)
    if tol is not None:
        env[fld("Some", "0", fld("", "tolerance", v))] = Fraction(tol)
    asm = [opt_is(fld("", "tolerance", v), "Some" if tol is not None else "None")]
    for role in ("accounts", "errors"):
        for x in subterms(B.row(role, "Balance", B.state(acc, "open"))):
            if x.op == "call" and last(x.a[0]) == "scale" and x.a[1] is units:
                env[x] = Fraction(scale)
            if x.op == "call" and last(x.a[0]) == "inferred_tolerance_multiplier":
                if (mk("discr", OPT, x), "Some" if mult is not None else "None") not in asm:
                    asm.append(opt_is(x, "Some" if mult is not None else "None"))
                if mult is not None:
                    env[fld("Some", "0", x)] = Fraction(mult)
    return env, asm


F = Fraction
SAMPLES = []          # (asserted units, rolled-up total, explicit tolerance, scale, multiplier, passes)
for u0 in (F(100), F(-100), F(0)):
    for sc, mu in ((2, None), (2, F(7, 10)), (1, None), (3, F(0)), (0, None), (0, F(7, 10))):
        t0 = F(0) if sc == 0 else 2 * F(1, 10 ** sc) * (F(1, 2) if mu is None else mu)
        for m0 in sorted({F(0), t0, -t0, t0 + F(1, 10000), -t0 - F(1, 10000), t0 / 2, t0 - F(1, 10000), F(5), F(-5), F(300), F(-300)}):
            SAMPLES.append((u0, u0 - m0, None, sc, mu, abs(m0) <= t0))
    for t0 in (F(0), F(5, 100), F(3)):
        for m0 in sorted({F(0), t0, -t0, t0 + F(1, 10000), -t0 - F(1, 10000), t0 / 2, -t0 / 2, F(5), F(-5)}):
            SAMPLES.append((u0, u0 - m0, t0, 2, None, abs(m0) <= t0))


def constants(T):
    """numbers that the conditions on balances compare with"""
    B = T.B
    out = set()
    for role in ("accounts", "errors", "booked"):
        for x in B.row(role, "Balance", []).sc:
            if x.op in ("lt", "eq", "case"):
                for y in subterms(x):
                    n = num(y, {}) if y.op in ("k", "call") else None
                    if n is not None and (y.op == "call" or x.op in ("lt", "eq") and y in x.a):
                        out.add(n)
    return {c for c in out if abs(c) > 1}


def amounts(T):
    """asserted amounts: a positive, a negative, none, and around every number the code compares with"""
    us = [F(100), F(-100), F(0)]
    for c in sorted(constants(T)):
        us += [u for u in (c - 1, c, c + 1, -c) if u not in us]
    return us


def off_rows(T, pad, off=True, curs=("any", "listed")):
    """balance assertions that are off (or hold), over amounts, ways to give the tolerance, and currency constraints"""
    for cur in curs:
        for u in amounts(T):
            if off:
                ms = [(F(5), F(1, 100), 2), (F(-5), F(1, 100), 2), (F(5), None, 2), (F(-5), None, 0), (u or F(7), F(1, 100), 2)]
            else:
                ms = [(F(0), F(1, 100), 2), (F(0), None, 2), (F(0), None, 0), (F(1, 200), F(1, 100), 2), (F(-1, 200), None, 2)]
            for m, tol, sc in ms:
                env, asm = margin_env(T, u, u - m, tol, sc, None)
                row = bal_row(T, pad, cur, name=(" that is off" if off else " that holds") + (", after a pad" if pad == "Some" else ""))
                row.asm = row.asm + asm
                row.env = env
                yield row


def margin_term(T):
    rs = rollups(T)
    if not rs:
        return None
    v, _ = bal_parts(T)
    return mk("sub", fld("", "units", v), rs[0])


def txn_parts(T):
    B = T.B
    v = B.payload("Transaction")
    bs = set()
    for p in B.parts.values():
        for x in subterms(restrict(p.nx, B.D, "Transaction")):
            if x.op == "call" and x.a[0] == "limabean_booking::book":
                bs.add(x)
    return v, sorted(bs)


def txn_anys(T, bk):
    """conditions that some posting is not acceptable, and that some updated account is not"""
    B = T.B
    post, upd = [], []
    okv = fld("Ok", "0", bk)
    for role in ("errors", "booked", "accounts"):
        t = restrict(B.row(role, "Transaction", []), discr(RES, bk), "Ok")
        for x in subterms(t):
            if x.op == "any":
                y = alpha(x)
                src = x.a[1]
                if any(z is fld("", "updated_inventory", okv) for z in subterms(src)):
                    if x not in upd:
                        upd.append(x)
                elif x not in post:
                    post.append(x)
    return post, upd


# ---- properties ----------------------------------------------------------------------------------------
def appended_entries(ctx, r, T, label, row, exp, keep=lambda d: True):
    """compare what a situation adds to the booked output with what is expected"""
    for pc, items in T.appended("booked", row):
        r.count("situations")
        if items is None:
            r.undecide("%s: the entries added to the output are not understood%s" % (label, cond(pc)))
            continue
        if len(items) != len(exp):
            bad = [x for x in forced_scruts(pc) if T.judge.opaque(x)]
            (r.undecide if bad else lambda w: r.violate(label + ":entries", w, site(ctx)))(
                "%s: %d entries are added to the booked output where %d are expected%s" % (label, len(items), len(exp), cond(pc)))
            continue
        for i, (a, e) in enumerate(zip(items, exp)):
            ds = diff(a, norm(e))
            for d in ds:
                d.pc = AND(pc, d.pc)
            judge_diffs(ctx, r, T, label + ("" if len(exp) == 1 else " entry %d" % i), ds, keep)


def all_ok_rows(T):
    """situations in which a directive is accepted, with the variants of the entries it gives rise to"""
    B = T.B
    for row in simple_rows(T):
        yield row, [T.bv(row.variant, B.payload(row.variant))]
    row, acc = open_ok(T)
    yield row, [T.bv("Open", B.payload("Open"))]
    row, acc = close_ok(T)
    yield row, [T.bv("Close", B.payload("Close"))]
    txn = T.bv("Transaction", ANY)
    yield pad_ok(T), [T.bv("Pad", B.payload("Pad")), txn]
    bal = T.bv("Balance", B.A(T.bty("Balance"), raw=B.payload("Balance")))
    for pad in ("None", "Some"):
        for off in (False, True):
            for row in off_rows(T, pad, off):
                yield row, [bal]
    v, bks = txn_parts(T)
    for bk in bks:
        post, upd = txn_anys(T, bk)
        asm = [(discr(RES, bk), "Ok")] + [(x, 0) for x in post + upd]
        yield Row("transaction that books", "Transaction", asm, {}), [txn]


def whole_list(r, B):
    """the booking loop visits the supplied directives themselves, all of them and in order"""
    if B.src is B.d:
        return
    t = B.src
    while t is not B.d and t.op in ("rev", "skip", "take", "step_by", "sorted", "comp"):
        if t.op == "comp":
            t = t.a[1]
        elif t.op == "sorted":
            t = t.a[1]
        else:
            t = [x for x in t.a if x.__class__ is T][0]
    if t is B.d:
        r.violate("booking:directives visited", "booking visits %s instead of the directives in the order supplied" % sh(B.src), where(B.site))
    else:
        r.undecide("booking visits %s" % sh(B.src))


def C13(ctx, r):
    r.explain = ("What each kind of accepted directive appends to the booked output, as a term over the directive (MIR of the booking loop with all calls "
                 "followed), is compared field by field with: one entry of the same kind carrying position, date, tags, links, metadata and content of the "
                 "directive, and after a pad one transaction entry; and the value returned is exactly that list, with no early exit of the loop.")
    T = table(ctx)
    B = T.B
    whole_list(r, B)
    for row, vs in all_ok_rows(T):
        appended_entries(ctx, r, T, row.name, row, [T.entry(v) for v in vs])
    # earlier entries are not touched, but for the content of a generated transaction
    for row, vs in all_ok_rows(T):
        t = norm(T.act("booked", row))
        for x in subterms(t):
            if x.op == "vupd":
                r.count("updates")
                v, acc = bal_parts(T)
                pi, pel, e0, e1, src = pad_refs(T, acc)
                want = mk("vupd", ANY, norm(add(pi, K(1))), norm(B.A(B.BDIR, **{n: fld("", n, e1) for n, _ in B.p.adts[B.BDIR]["variants"][0]["fields"] if n != "variant"})))
                judge_diffs(ctx, r, T, row.name + ": earlier entry", diff(x, norm(want)))
    check_return(ctx, r, T, "directives")
    r.floor("situations", 10, "situations of accepted directives")


def result_parts(T):
    """[(condition, Ok payload or None, Err payload or None)]"""
    out = []
    for _, val in T.B.outs:
        def go(x, pc):
            if x.op == "case":
                s, it, d = case_items(x)
                for l, y in it.items():
                    go(y, AND(pc, eqlabel(s, l)))
                if d is not None:
                    go(d, pc)
            elif is_adt(x) and x.a[0] == RES:
                out.append((pc, x.a[3] if x.a[1] == "Ok" else None, x.a[3] if x.a[1] == "Err" else None))
            elif x is not BOT:
                out.append((pc, None, None))
        go(val, TRUE)
    return out


def finals(T, role):
    """terms that stand for the whole of a part after the loop"""
    p = T.B.parts[role]
    return p.final


def check_return(ctx, r, T, what):
    B = T.B
    fb = norm(finals(T, "booked"))
    for pc, o, e in result_parts(T):
        if o is None:
            continue
        r.count("results")
        ds = [y for n, y in zip(o.a[2], o.a[3:]) if any(z.op == "adt" and z.a[0] == B.BDIR for z in subterms(y))] if is_adt(o) else [o]
        if not ds:
            r.violate("result:directives", "a successful result does not carry the booked entries", site(ctx))
            continue
        for y in ds:
            y = norm(y)
            if alpha(y) is alpha(fb):
                continue
            judge_diffs(ctx, r, T, "booked result", diff(y, fb))
    if B.L.early:
        for x in B.L.early:
            r.undecide("the loop over the directives can be left early")
    r.floor("results", 1, "successful results")


def C14(ctx, r):
    r.explain = ("Every situation of the transition table either appends an entry to the output or an error, never neither; errors are only ever appended; "
                 "the loop over the directives has no early exit; and the result is Ok exactly when the list of errors and the list of pending pads are both "
                 "empty, and otherwise Err with the whole list.")
    T = table(ctx)
    B = T.B
    # 1. no directive disappears
    for v in sorted(UNIV[B.DV]):
        row = Row("any " + v, v, [], {})
        nb, ne = norm(B.row("booked", v, [])), norm(B.row("errors", v, []))
        vanish(ctx, r, T, v, nb, ne)
    # 2. pads without effect are errors
    for row in off_rows(T, "Some", False):
        expect_count(ctx, r, T, "pad without effect", row, "errors", {1}, "errors")
    # 3. errors only grow
    t = norm(B.nx("errors"))
    for l in set(leaves(t)):
        r.count("situations")
        if not grows(l, B.lv("errors")):
            if T.judge.opaque(l):
                r.undecide("how the list of errors changes is not understood: %s" % sh(l))
            else:
                r.violate("errors:kept", "the list of errors becomes %s" % sh(l), site(ctx))
    dup = [l for l in set(leaves(t)) if repeated(l)]
    for l in dup:
        r.violate("errors:twice", "an error is entered more than once: %s" % sh(l), site(ctx))
    # 4. the result
    fe = finals(T, "errors")
    fa = finals(T, "accounts")
    seen_ok = seen_err = 0
    for pc, o, e in result_parts(T):
        r.count("results")
        whole = errors_of(T, e) if e is not None else None
        if e is not None:
            seen_err += 1
            if whole is None:
                r.undecide("the errors of a failure are not understood")
                continue
            check_final_errors(ctx, r, T, whole, fe, fa, pc)
            # reached only when there are errors
        elif o is not None:
            seen_ok += 1
        else:
            r.undecide("a result of booking is not understood")
    if not seen_ok or not seen_err:
        r.violate("result:kinds", "booking does not return both success and failure", site(ctx))
    check_verdict(ctx, r, T, fe, fa)
    if B.L.early:
        r.violate("loop:early", "the loop over the directives can stop before the last one", where(B.L.early[0][-1] if isinstance(B.L.early[0], tuple) else None) or site(ctx))
    r.floor("situations", 8, "situations")


def grows(l, lvt):
    return l is lvt or l is BOT or (l.op == "cat" and grows(l.a[0], lvt))


def repeated(l):
    if l.op != "cat":
        return False
    xs = [z for y in l.a[1:] if y.op == "seq" for z in y.a]
    return len(set(xs)) != len(xs)


def vanish(ctx, r, T, v, nb, ne):
    """situations in which neither an entry nor an error is appended"""
    lb, le = T.B.lv("booked"), T.B.lv("errors")
    both = mk("tup", nb, ne)
    n = [0]

    def base(x):
        return x.a[0] if x.op == "cat" else x

    def go(x, y, pc, depth=0):
        if n[0] > 4000:
            return
        if x.op == "case" or y.op == "case":
            s = min([z.a[0] for z in (x, y) if z.op == "case"])
            ls = set()
            for z in (x, y):
                if z.op == "case" and z.a[0] is s:
                    ls.update(z.a[1])
            for l in sorted(ls, key=str):
                go(restrict(x, s, l), restrict(y, s, l), AND(pc, eqlabel(s, l)))
            return
        n[0] += 1
        if x is BOT or y is BOT:
            return
        r.count("situations")
        if y is le and (x is lb or x.op == "vupd"):
            bad = [q for q in forced_scruts(pc) if T.judge.opaque(q)]
            if infeasible(T, pc):
                return
            if bad:
                r.undecide("%s: neither an entry nor an error%s" % (v, cond(pc)))
            else:
                r.violate("%s:vanishes" % v, "%s directive: neither an entry nor an error is recorded%s" % (v, cond(pc)), site(ctx))
    go(nb, ne, TRUE)


def infeasible(T, pc):
    """contradicts what the maps always satisfy: an open account has a state"""
    B = T.B
    f = forced(pc)
    for s, l in f.items():
        if s.op == "has" and s.a[0] is B.lv("accounts") and l == 0:
            for q in ("open", "closed"):
                if f.get(mk("has", B.lv(q), s.a[1])) == 1:
                    return True
        if s.op == "any" and l == 1 and any(z.op == "fld" and z.a[1] == "updated_inventory" for z in subterms(s.a[1])):
            return True
    return False


def errors_of(T, e):
    """the list of errors carried by a failure"""
    if is_adt(e):
        c = [x for n, x in zip(e.a[2], e.a[3:]) if any(y.op == "adt" and y.a[0] == T.B.REP for y in subterms(x))]
        return c[0] if len(c) == 1 else None
    return e


def pad_pending(T, x):
    """is this a list made of the pending pads of all accounts"""
    return any(y is T.B.parts["accounts"].final or alpha(y) is alpha(T.B.parts["accounts"].final) for y in subterms(x))


def check_final_errors(ctx, r, T, whole, fe, fa, pc):
    B = T.B
    whole = norm(whole)
    parts = list(whole.a) if whole.op == "cat" else [whole]
    fparts = list(norm(fe).a) if fe.op == "cat" else [norm(fe)]
    head, rest = parts[:len(fparts)], parts[len(fparts):]
    if [alpha(x) for x in head] != [alpha(x) for x in fparts]:
        if any(x in subterms(whole) for x in fparts):
            r.undecide("the errors of a failure are not the list of errors followed by unused pads: %s" % sh(whole))
        else:
            r.violate("result:errors", "the errors of a failure are %s, not the errors that were found" % sh(whole), site(ctx))
        return
    return


def check_verdict(ctx, r, T, fe, fa):
    """Ok exactly when there is no error and no pending pad"""
    B = T.B
    conds = set()
    for _, val in B.outs:
        for s in val.sc:
            conds.add(s)
    nofinal = []
    aF = alpha(norm(fe))

    def errs_empty(s):
        return s is isempty(fe) or alpha(norm(s)) is alpha(norm(isempty(fe)))

    def mentions_err(s):
        return any(y.op == "adt" and y.a[0] == B.REP for y in subterms(s))
    # truth table over: errors empty, some account has a pending pad
    E = [s for s in conds if mentions_err(s)]
    P = [s for s in conds if s not in E and any(y.op == "fld" and y.a[1] == "pad" for y in subterms(s)) and s.op in ("any", "isempty")]
    other = [s for s in conds if s not in E and s not in P]
    r.count("verdict_conditions", len(conds))
    r.sample("verdict depends on: " + "; ".join(sh(s, 100) for s in conds))
    for ev in (0, 1):
        for pv in (0, 1):
            val = [v for _, v in B.outs]
            for s in E + P:
                l = verdict_atom(T, s, fe, fa, ev, pv)
                if l is None:
                    continue
                val = [restrict(v, s, l) for v in val]
            kinds = set()
            for v in val:
                for x in leaves(v):
                    if x is BOT:
                        continue
                    kinds.add(x.a[1] if is_adt(x) and x.a[0] == RES else "?")
            want = "Ok" if not ev and not pv else "Err"
            what = "%s errors and %s pending pads" % ("with" if ev else "without", "with" if pv else "without")
            if kinds == {want}:
                continue
            if "?" in kinds or (want in kinds and any(T.judge.opaque(s) for v in val for s in v.sc)):
                r.undecide("result %s not understood" % what)
            elif want not in kinds or not any(T.judge.opaque(s) for v in val for s in v.sc):
                r.violate("result:%d%d" % (ev, pv), "%s booking returns %s" % (what, " or ".join(sorted(kinds)) or "nothing"), site(ctx))


def verdict_atom(T, s, fe, fa, ev, pv):
    """value of a condition of the result, given whether there are errors and pending pads"""
    if s.op == "isempty":
        return empt(T, s.a[0], fe, fa, ev, pv)
    if s.op == "any":
        m = [y for y in subterms(s) if y.op == "adt" and y.a[0] == T.B.REP]
        src = empt(T, s.a[1], fe, fa, ev, pv)
        c = s.a[2]
        if m or is_errs(s.a[1], fe) or s in isempty(fe).sc:
            # some directive adds an error
            return ev
        if any(y.op == "fld" and y.a[1] == "pad" for y in subterms(s)):
            return pv
        if src == 1:
            return 0
        return None
    return None


def is_errs(x, fe):
    return x is fe or alpha(norm(x)) is alpha(norm(fe))


def empt(T, x, fe, fa, ev, pv):
    """is a list empty, given whether there are errors and pending pads"""
    if is_errs(x, fe):
        return 1 - ev
    if x.op == "cat":
        fparts = list(fe.a) if fe.op == "cat" else [fe]
        rest = list(x.a)
        n = len(fparts)
        if [alpha(norm(y)) for y in rest[:n]] == [alpha(norm(y)) for y in fparts]:
            a = 1 - ev
            rest = rest[n:]
        else:
            a = 1
        for y in rest:
            z = empt(T, y, fe, fa, ev, pv)
            if z is None:
                return None
            a = a and z
        return a
    if x.op in ("comp", "sorted", "rev", "unord", "toset"):
        if any(y.op == "fld" and y.a[1] == "pad" for y in subterms(x)):
            return 1 - pv
    if x.op == "seq":
        return 1 if not x.a else 0
    return None


def account_situations(T, variant, field, others=()):
    """(state of the account, row)"""
    B = T.B
    acc = fld("", field, B.payload(variant))
    for st in ("open", "closed", "never"):
        asm = B.state(acc, st)
        for o in others:
            asm = asm + B.state(fld("", o, B.payload(variant)), "open")
        yield st, acc, Row("%s, %s account %s" % (variant.lower(), field, {"open": "open", "closed": "closed before", "never": "never opened"}[st]), variant, asm, {})


def C15(ctx, r):
    r.explain = ("For each kind of directive that uses an account and each state of the account (open, closed before, never opened), the transition of the "
                 "booking state is evaluated on the MIR terms: an error is recorded exactly in the situations in which the account may not be used so, and the "
                 "sets of open and closed accounts change exactly as open and close directives say.")
    T = table(ctx)
    B = T.B
    lo, lc, la = B.lv("open"), B.lv("closed"), B.lv("accounts")

    def state(label, row, o, c):
        judge_diffs(ctx, r, T, label + ": open accounts", T.diffs("open", row, o))
        judge_diffs(ctx, r, T, label + ": closed accounts", T.diffs("closed", row, c))
        r.count("obligations", 2)

    # open
    for st, acc, row in account_situations(T, "Open", "acc"):
        expect_count(ctx, r, T, row.name, row, "errors", {0} if st == "never" else {1}, "errors")
        state(row.name, row, mk("mins", lo, acc, B.element()) if st == "never" else lo, lc)
        if st == "never":
            ds = T.diffs("accounts", row, T.acc_update(la, acc, **{n: ANY for n, _ in B.p.adts[B.AB]["variants"][0]["fields"]}))
        else:
            ds = T.diffs("accounts", row, la)
        judge_diffs(ctx, r, T, row.name + ": account states", ds)
    for st, acc, row in account_situations(T, "Close", "acc"):
        expect_count(ctx, r, T, row.name, row, "errors", {0} if st == "open" else {1}, "errors")
        state(row.name, row, mk("mrem", lo, acc) if st == "open" else lo, mk("mins", lc, acc, B.element()) if st == "open" else lc)
    for f, o in (("acc", "source"), ("source", "acc")):
        for st, acc, row in account_situations(T, "Pad", f, (o,)):
            row.asm = row.asm + [opt_is(B.af(fld("", "acc", B.payload("Pad")), "pad"), "None")]
            expect_count(ctx, r, T, row.name, row, "errors", {0} if st == "open" else {1}, "errors")
            state(row.name, row, lo, lc)
    for st, acc, row in account_situations(T, "Balance", "acc"):
        for row in off_rows(T, "None", False) if st == "open" else [row]:
            expect_count(ctx, r, T, row.name, row, "errors", {0} if st == "open" else {1}, "errors")
            state(row.name, row, lo, lc)
    v, bks = txn_parts(T)
    if not bks:
        raise facts.CannotDecide("no call of the booking engine for transactions")
    for bk in bks:
        post, upd = txn_anys(T, bk)
        r.count("posting_conditions", len(post))
        for st in ("open", "closed", "never"):
            label = "transaction, posting account %s" % {"open": "open", "closed": "closed before", "never": "never opened"}[st]
            l = posting_refused(ctx, r, T, post, label, st, "any")
            if l is not None and l != (0 if st == "open" else 1):
                r.violate(label, "%s: the posting is %s" % (label, "accepted" if l == 0 else "refused"), site(ctx))
        refusal_rows(ctx, r, T, bk, post, upd, "transaction with a refused posting", count_only=True)
    for s in SIMPLE + ("Transaction",):
        row = Row(s.lower(), s, [], {})
        state(row.name, row, lo, lc)
    judge_init(ctx, r, T)
    r.floor("obligations", 20, "obligations")


def judge_init(ctx, r, T):
    B = T.B
    for role in ("open", "closed", "accounts", "errors", "booked"):
        i = B.parts[role].init
        if i is not EMPTYSEQ and not (i.op == "tomap" and i.a[0] is EMPTYSEQ):
            (r.undecide if T.judge.opaque(i) else lambda w: r.violate("init:" + role, w, site(ctx)))("%s starts as %s" % (role, sh(i)))


def posting_refused(ctx, r, T, post, label, st, cur):
    """1 if some condition refuses a posting in this situation, 0 if none does"""
    B = T.B
    res = 0
    if not post:
        return 0
    for x in post:
        L, src, body = x.a[0], x.a[1], x.a[2]
        accs = {y for y in subterms(body) if y.op == "fld" and y.a[1] == "acc" and any(z.op == "elem" and z.a[0] == L for z in subterms(y))}
        t = body
        for a in accs:
            al = B.af(a, "allowed_currencies")
            cs = B.state(a, st)
            if cur == "any":
                cs = cs + [(isempty(al), 1)]
            else:
                cs = cs + [(isempty(al), 0)]
            t = B.apply(t, cs)
            for y in list(subterms(t)):
                if y.op == "contains" and y.a[0] is al:
                    if y.a[1].op == "fld" and y.a[1].a[1] == "currency":
                        t = restrict(t, y, 1 if cur == "listed" else 0)
        r.count("situations")
        if t is TRUE or t is K(1):
            res = 1
        elif t is FALSE or t is K(0):
            pass
        else:
            ls = {z for z in leaves(t)}
            bad = [s for s in t.sc if T.judge.opaque(s)]
            if bad or not ls <= {TRUE, FALSE, K(0), K(1)}:
                r.undecide("%s: not decided by %s" % (label, sh(t)))
            else:
                r.violate(label + ":depends", "%s: whether the posting is refused depends on %s" % (label, sh(t)), site(ctx))
            return None
    return res


def refusal_rows(ctx, r, T, bk, post, upd, label, count_only=False):
    B = T.B
    for x in post:
        asm = [(discr(RES, bk), "Ok")] + [(y, 0) for y in upd] + [(x, 1)]
        row = Row(label, "Transaction", asm, {})
        if count_only:
            expect_count(ctx, r, T, label, row, "errors", {1}, "errors")
        else:
            judge_diffs(ctx, r, T, label + ": account states", T.diffs("accounts", row, B.lv("accounts")))
        r.count("obligations")


def C16(ctx, r):
    r.explain = ("For postings (after interpolation) and balance assertions on an open account, whether an error is recorded is evaluated on the MIR terms for "
                 "the three cases no currencies declared, currency declared, currency not declared; the set declared is the set in the open directive; and in the "
                 "situation of a refused posting the account states are unchanged.")
    T = table(ctx)
    B = T.B
    v, acc = bal_parts(T)
    for cur in ("any", "listed", "unlisted"):
        label = "balance, currency " + {"any": "unrestricted", "listed": "declared", "unlisted": "not declared"}[cur]
        for row in off_rows(T, "None", False, (cur,)):
            expect_count(ctx, r, T, label, row, "errors", {1} if cur == "unlisted" else {0}, "errors")
        r.count("obligations")
    vt, bks = txn_parts(T)
    if not bks:
        raise facts.CannotDecide("no call of the booking engine for transactions")
    for bk in bks:
        post, upd = txn_anys(T, bk)
        for cur in ("any", "listed", "unlisted"):
            label = "posting, currency " + {"any": "unrestricted", "listed": "declared", "unlisted": "not declared"}[cur]
            l = posting_refused(ctx, r, T, post, label, "open", cur)
            r.count("obligations")
            if l is not None and l != (1 if cur == "unlisted" else 0):
                r.violate(label, "%s: the posting is %s" % (label, "accepted" if l == 0 else "refused"), site(ctx))
        refusal_rows(ctx, r, T, bk, post, upd, "transaction with a refused posting")
        # which currency is looked at
        for x in post:
            for y in subterms(x.a[2]):
                if y.op == "contains" and y.a[0].op == "fld" and y.a[0].a[1] == "allowed_currencies":
                    c = y.a[1]
                    b = c.a[2] if c.op == "fld" else None
                    if not (b is not None and c.a[1] == "currency" and b.op == "elem" and any(z is fld("", "interpolated_postings", fld("Ok", "0", bk)) for z in subterms(b))):
                        (r.undecide if T.judge.opaque(c) else lambda w: r.violate("posting:currency", w, site(ctx)))(
                            "the currency checked for a posting is %s, not the interpolated one" % sh(c))
    # what is declared
    row, acc = open_ok(T)
    vo = B.payload("Open")
    cs = fld("", "currencies", vo)
    exp = T.acc_update(B.lv("accounts"), acc, **dict({n: ANY for n, _ in B.p.adts[B.AB]["variants"][0]["fields"]},
                                                  allowed_currencies=toset(case(mk("discr", OPT, cs), {"None": seq(), "Some": fld("Some", "0", cs)}))))
    bare = lambda t: norm(rewrite(norm(t), lambda x: x.a[0] if x.op in ("toset", "unord") else x))      # in whatever kind of collection
    judge_diffs(ctx, r, T, "open: declared currencies", diff(bare(T.act("accounts", row)), bare(exp)), field_diff(["allowed_currencies"]))
    keeps(ctx, r, T, "allowed_currencies", skip=("Open",))
    r.floor("obligations", 6, "obligations")


def keeps(ctx, r, T, field, skip=()):
    """no directive but those skipped changes a field of an account"""
    B = T.B
    for v in sorted(UNIV[B.DV]):
        if v in skip:
            continue
        t = norm(B.row("accounts", v, []))
        for s in sorted(t.sc):
            if s.op == "eq":
                t = restrict(t, s, 0)
        for x in subterms(t):
            if x.op == "mins" and x.a[2].op == "adt" and x.a[2].a[0] == B.AB:
                f = adt_field(x.a[2], field)
                r.count("updates")
                base = mk("mval", x.a[0], x.a[1])
                ls = set(leaves(f))
                for l in ls:
                    if l.op == "fld" and l.a[1] == field and l.a[2].op == "mval" and l.a[2].a[1] is x.a[1]:
                        continue
                    if T.judge.opaque(l):
                        r.undecide("%s: %s of an account becomes %s" % (v, field, sh(l)))
                    else:
                        r.violate("%s:%s" % (v, field), "%s directive: %s of an account becomes %s" % (v, field, sh(l)), site(ctx))


# ---- strings ---------------------------------------------------------------------------------------------
def text_settle(t, env):
    done = set()
    for _ in range(200):
        for s in sorted(t.sc, key=lambda x: x.size):
            if s in done:
                continue
            done.add(s)
            l = text_truth(s, env)
            if l is not None:
                t = restrict(t, s, l)
                break
        else:
            return t
    return t


NAMES = [("Assets:Bank", "Assets:Bank", 1), ("Assets:Bank", "Assets:Bank:Current", 1), ("Assets:Bank", "Assets:Bank:Current:A", 1), ("Assets:Bank", "Assets:Banking", 0),
         ("Assets:Bank", "Assets:Banking:Current", 0), ("Assets:Bank", "Assets:Ban", 0), ("Assets:Bank", "Assets", 0), ("Assets:Bank", "Expenses:Food", 0),
         ("Assets:Bank", "Assets:Bank2", 0), ("Assets:Bank", "Assets:Bank-A", 0), ("Assets:Bank", "X:Assets:Bank", 0), ("Assets:Bank:A", "Assets:Bank", 0), ("Assets:A", "Assets:B", 0)]


def selects_accounts(ctx, r, T, label, body, cand, base, member, okv):
    """a per-item body gives okv(...) exactly for the account itself and its sub-accounts"""
    for b, c, want in NAMES:
        env = {base: b, cand: c}
        t = text_settle(body, env)
        r.count("name_cases")
        got = member(t)
        if got is None:
            # an account that was opened is open or closed: it counts in either case
            op, cl = [mk("has", T.B.lv(n), cand) for n in ("open", "closed")]
            by = {n: member(restrict(restrict(t, op, int(n == "open")), cl, int(n == "closed"))) for n in ("open", "closed")}
            if None not in by.values():
                bad = [n for n in by if by[n] != want]
                if bad:
                    r.violate("%s:accounts" % label, "%s: account %s is %s for %s when it is %s" % (label, c, "left out" if want else "included", b, bad[0]), site(ctx))
                    return False
                continue
            r.undecide("%s: not decided for account %s and %s: %s" % (label, b, c, sh(t)))
            return False
        if got != want:
            r.violate("%s:accounts" % label, "%s: account %s is %s for %s" % (label, c, "included" if got else "left out", b), site(ctx))
            return False
    return True


def check_rollup(ctx, r, T):
    """the total is over the account and its sub-accounts, of the units of the asserted currency"""
    B = T.B
    v, acc = bal_parts(T)
    cur = fld("", "cur", v)
    rs = rollups(T)
    if not rs:
        r.undecide("no total over the accounts in balance assertions")
        return False
    for s in rs:
        c = s.a[0]
        r.count("totals")
        if c.op != "comp":
            r.undecide("total of %s is not understood" % sh(c))
            continue
        L, src, body = c.a
        srcs = {x for x in subterms(src)}
        if B.lv("accounts") not in srcs:
            r.undecide("total over %s" % sh(src))
            continue
        el = [x for x in subterms(body) if x.op == "elem" and x.a[0] == L]
        if not el:
            r.violate("total:items", "what is totalled does not depend on the account: %s" % sh(body), site(ctx))
            continue
        cand = fld("", "0", el[0])

        def member(t):
            ls = set(leaves(t))
            if ls and all(l is EMPTYSEQ for l in ls):
                return 0
            if ls and all(l.op == "seq" and len(l.a) == 1 for l in ls):
                return 1
            return None
        # an account that holds none of the currency adds nothing
        held = body
        for x in subterms(body):
            if x.op == "has" and x.a[0].op == "call" and last(x.a[0].a[0]) == "units":
                held = restrict(held, x, 1)
        if not selects_accounts(ctx, r, T, "total", held, cand, acc, member, None):
            continue
        # value for the account itself
        t = text_settle(body, {acc: "A:B", cand: "A:B"})
        items = [l for l in [t]]
        units = call("Positions::units", fld("", "positions", fld("", "1", el[0])))
        us = [x for x in subterms(t) if x.op == "call" and last(x.a[0]) == "units"]
        if us:
            units = us[0]
        exp = case(mk("has", units, cur), {0: EMPTYSEQ, 1: seq(mk("mval", units, cur))})
        if us and not any(x is fld("", "positions", fld("", "1", el[0])) for x in subterms(us[0])):
            judge_diffs(ctx, r, T, "total", [Diff(("inventory",), TRUE, us[0], fld("", "positions", fld("", "1", el[0])))])
        judge_diffs(ctx, r, T, "total: amount of an account", diff(norm(t), norm(exp)))
        # a sub-account is totalled alike
        t2 = text_settle(body, {acc: "A:B", cand: "A:B:C"})
        judge_diffs(ctx, r, T, "total: amount of a sub-account", diff(norm(t2), norm(exp)))
    return True


def C17(ctx, r):
    r.explain = ("The total is compared with the sum over the accounts selected by name, the selection being evaluated for every way an account name can relate to "
                 "the asserted one; whether an error is recorded is evaluated on the MIR terms for valuations covering every ordering of difference and tolerance "
                 "(explicit and inferred, with and without multiplier, by scale); and the adjustment after a failure is compared term by term.")
    T = table(ctx)
    B = T.B
    v, acc = bal_parts(T)
    check_rollup(ctx, r, T)
    for i, (u, R, tol, sc, mu, ok) in enumerate(SAMPLES):
        env, asm = margin_env(T, u, R, tol, sc, mu)
        row = bal_row(T, "None")
        row.asm, row.env = row.asm + asm, env
        label = "balance of %s against %s, tolerance %s" % (float(u), float(R), ("%s" % float(tol)) if tol is not None else "inferred from scale %d, multiplier %s" % (sc, "unset" if mu is None else float(mu)))
        n0 = len(r.violations)
        expect_count(ctx, r, T, label, row, "errors", {0} if ok else {1}, "errors")
        r.count("valuations")
        if len(r.violations) > n0:
            # one kind of valuation is enough
            r.violations[n0]["key"] = "margin:%s:%s" % ("explicit" if tol is not None else "inferred", "passes" if ok else "fails")
            if len(r.violations) > 6:
                break
    m = margin_term(T)
    if m is not None:
        for off in (True, False):
            for row in off_rows(T, "None", off):
                a = T.act("accounts", row)
                pos = B.af(acc, "positions")
                cur = fld("", "cur", v)
                want = mk("after", "Positions::accumulate", 0, pos, m, cur, NONE, ANY) if off else pos
                exp = T.acc_update(B.lv("accounts"), acc, **dict({n: ANY for n, _ in B.p.adts[B.AB]["variants"][0]["fields"]}, positions=want))
                judge_diffs(ctx, r, T, row.name + ": inventory", diff(norm(a), norm(exp)))
                r.count("obligations")
    r.floor("valuations", 100, "valuations")


def C18(ctx, r):
    r.explain = ("The transitions of pad directives and of balance assertions with and without a pending pad are compared term by term with: the pad is remembered "
                 "with its place in the output, consumed by the next balance assertion, fills in two padding postings of the gap and its negation, adjusts both "
                 "inventories, and is an error if replaced, not needed, or still pending at the end.")
    T = table(ctx)
    B = T.B
    v, pacc, psrc = pad_parts(T)
    fields = [n for n, _ in B.p.adts[B.AB]["variants"][0]["fields"]]
    la, lb = B.lv("accounts"), B.lv("booked")
    anyf = {n: ANY for n in fields}
    # pad
    row = pad_ok(T)
    exp = T.acc_update(la, pacc, **dict(anyf, pad=some(tup(length(lb), B.element()))))
    judge_diffs(ctx, r, T, row.name + ": account states", T.diffs("accounts", row, exp))
    r.count("obligations")
    TX = T.bty("Transaction")
    gen = B.A(TX, flag=mk("str", "'P"), payee=NONE, narration=NONE, postings=seq())
    appended_entries(ctx, r, T, row.name, row, [T.entry(ANY), T.entry(T.bv("Transaction", gen))], keep=lambda d: "variant" in d.path or not d.path)
    expect_count(ctx, r, T, row.name, row, "errors", {0}, "errors")
    row = pad_ok(T, "Some")
    expect_count(ctx, r, T, row.name, row, "errors", {1}, "errors")
    # balance after pad
    vb, acc = bal_parts(T)
    cur = fld("", "cur", vb)
    pi, pel, e0, e1, src = pad_refs(T, acc)
    m = margin_term(T)
    for row in off_rows(T, "Some", False):
        expect_count(ctx, r, T, row.name, row, "errors", {1}, "errors")
        judge_diffs(ctx, r, T, row.name + ": account states", T.diffs("accounts", row, T.acc_update(la, acc, **dict(anyf, pad=NONE, positions=B.af(acc, "positions")))))
        judge_diffs(ctx, r, T, row.name + ": output", T.diffs("booked", row, cat(lb, seq(ANY))))
        r.count("obligations", 3)
    for row in off_rows(T, "Some", True):
        expect_count(ctx, r, T, row.name, row, "errors", {0}, "errors")
        if m is None:
            r.undecide("no difference between asserted and total units found")
        else:
            one = T.acc_update(la, acc, **dict(anyf, pad=NONE, positions=mk("after", "Positions::accumulate", 0, B.af(acc, "positions"), m, cur, NONE, ANY)))
            two = T.acc_update(one, src, base=mk("mval", la, src), **dict(anyf, positions=mk("after", "Positions::accumulate", 0, fld("", "positions", mk("mval", la, src)), mk("neg", m), cur, NONE, ANY)))
            ds = T.diffs("accounts", row, two)
            if ds:
                # the two updates are independent
                one = T.acc_update(la, src, **dict(anyf, positions=mk("after", "Positions::accumulate", 0, fld("", "positions", mk("mval", la, src)), mk("neg", m), cur, NONE, ANY)))
                alt = T.acc_update(one, acc, base=mk("mval", la, acc), **dict(anyf, pad=NONE, positions=mk("after", "Positions::accumulate", 0, B.af(acc, "positions"), m, cur, NONE, ANY)))
                ds2 = T.diffs("accounts", row, alt)
                if len(ds2) < len(ds):
                    ds = ds2
            judge_diffs(ctx, r, T, row.name + ": account states", ds)
            P = T.bty("Posting")
            def pst(a, u):
                return B.A(P, idx=NONE, flag=some(mk("str", "'P")), acc=a, units=u, cur=cur, cost=NONE, price=NONE, tags=NONE, links=NONE, metadata=NONE)
            tx1 = fld("Transaction", "0", fld("", "variant", e1))
            txf = [n for n, _ in B.p.adts[TX]["variants"][0]["fields"]]
            newtx = B.A(TX, **dict({n: fld("", n, tx1) for n in txf}, postings=seq(pst(acc, m), pst(src, mk("neg", m)))))
            newdir = B.A(B.BDIR, **dict({n: fld("", n, e1) for n, _ in B.p.adts[B.BDIR]["variants"][0]["fields"]}, variant=T.bv("Transaction", newtx)))
            judge_diffs(ctx, r, T, row.name + ": output", T.diffs("booked", row, cat(mk("vupd", lb, add(pi, K(1)), newdir), seq(ANY))))
            r.count("obligations", 2)
    # no pending pad: nothing is generated
    for off in (True, False):
        for row in off_rows(T, "None", off):
            judge_diffs(ctx, r, T, row.name + ": output", T.diffs("booked", row, cat(lb, seq(ANY))))
            judge_diffs(ctx, r, T, row.name + ": account states", T.diffs("accounts", row, T.acc_update(la, acc, **dict(anyf, pad=NONE))))
            r.count("obligations", 2)
    # new accounts have none, nothing else sets or clears it
    row, oacc = open_ok(T)
    judge_diffs(ctx, r, T, row.name, T.diffs("accounts", row, T.acc_update(la, oacc, **dict(anyf, pad=NONE))))
    keeps(ctx, r, T, "pad", skip=("Open", "Pad", "Balance"))
    pending_reports(ctx, r, T)
    r.floor("obligations", 6, "obligations")


def pending_reports(ctx, r, T):
    """each pad pending at the end is an error"""
    B = T.B
    n = 0
    for pc, o, e in result_parts(T):
        if e is None:
            continue
        w = errors_of(T, e)
        if w is None:
            r.undecide("the errors of a failure are not understood")
            continue
        for x in (w.a if w.op == "cat" else [w]):
            if x.op == "comp" and pad_pending(T, x) and not any(y is B.d for y in [x.a[1]]):
                n += 1
    r.count("pending_pad_reports", n)
    if not n:
        und = [1 for pc, o, e in result_parts(T) if e is not None and errors_of(T, e) is not None and T.judge.opaque(errors_of(T, e))]
        (r.undecide if und else lambda w: r.violate("end:pending", w, site(ctx)))("pads still pending at the end are not reported")


def C19(ctx, r):
    r.explain = ("The entry appended for a transaction that books is compared field by field with flag, payee and narration of the input and, for each pair of "
                 "interpolated and written posting in order, one posting per cost assigned by the engine or one without cost.")
    T = table(ctx)
    B = T.B
    v, bks = txn_parts(T)
    if not bks:
        raise facts.CannotDecide("no call of the booking engine for transactions")
    TX, P, C, PR = (T.bty(n) for n in ("Transaction", "Posting", "Cost", "Price"))
    for bk in bks:
        post, upd = txn_anys(T, bk)
        asm = [(discr(RES, bk), "Ok")] + [(x, 0) for x in post + upd]
        row = Row("transaction that books", "Transaction", asm, {})
        okv = fld("Ok", "0", bk)
        interp, written = fld("", "interpolated_postings", okv), fld("", "postings", v)
        src = mk("zip", interp, written)
        L = 300000
        i, w = mk("elem", L, interp), mk("elem", L, written)
        cost = fld("Some", "0", fld("", "cost", i))
        f = lambda n, x: fld("", n, x)
        common = dict(idx=some(mk("idx", L)), flag=f("flag", w), acc=f("acc", w), cur=f("currency", i), tags=f("tags", w), links=f("links", w), metadata=f("metadata", w))
        cc = call("PostingCosts::into_currency_costs", cost)
        e2 = mk("elem", L + 1, cc)
        c1 = fld("", "1", e2)
        withc = comp(L + 1, cc, seq(B.A(P, **dict(common, units=f("units", c1), cost=some(B.A(C, date=f("date", c1), per_unit=f("per_unit", c1), total=f("total", c1), cur=fld("", "0", e2),
                                                                                              label=f("label", c1), merge=f("merge", c1))), price=ANY))))
        pr = f("price", i)
        p1 = fld("Some", "0", pr)
        without = seq(B.A(P, **dict(common, units=f("units", i), cost=NONE, price=case(mk("discr", OPT, pr), {
            "None": NONE, "Some": some(B.A(PR, per_unit=f("per_unit", p1), total=f("total", p1), cur=f("currency", p1)))}))))
        posts = comp(L, src, case(mk("discr", OPT, f("cost", i)), {"None": without, "Some": withc}))
        tx = B.A(TX, flag=f("flag", v), payee=f("payee", v), narration=f("narration", v), postings=posts)
        appended_entries(ctx, r, T, row.name, row, [B.A(B.BDIR, variant=T.bv("Transaction", tx))])
        r.count("fields", 23)
    r.floor("situations", 1, "booked transactions")


def supported(x):
    return call("limabean_booking::is_supported_method", x)


def booking_default(T):
    ds = [x for x in subterms(T.B.nx("accounts")) if x.op == "call" and last(x.a[0]) == "default" and "Booking" in sh(x)]
    return ds[0] if ds else None


def ledger_method(T):
    """booking method of the ledger's options, else the default"""
    B = T.B
    o = call("Options::booking_method", B.options)
    x = fld("Some", "0", o)
    D = booking_default(T)
    return case(mk("discr", OPT, o), {"None": D, "Some": case(supported(x), {0: D, 1: x})})


def C20(ctx, r):
    r.explain = ("The method stored for an opened account and the methods and tolerance handed to the booking engine are compared, as terms over the open directive and "
                 "the options, with: the account's method if given and supported, else the ledger's if given and supported, else the engine's default.")
    T = table(ctx)
    B = T.B
    D = booking_default(T)
    if D is None:
        r.undecide("the engine's default booking method is not used for accounts")
        return
    o = call("Options::booking_method", B.options)
    ox = fld("Some", "0", o)
    row, acc = open_ok(T)
    vb = fld("", "booking", B.payload("Open"))
    bx = fld("Some", "0", vb)
    anyf = {n: ANY for n, _ in B.p.adts[B.AB]["variants"][0]["fields"]}
    for given in ("None", "Some"):
        for opt in ("None", "Some"):
            for sg in (0, 1):
                for so in (0, 1):
                    asm = row.asm + [opt_is(vb, given), opt_is(o, opt), (supported(bx), sg), (supported(ox), so), (supported(D), 1)]
                    rw = Row("open", "Open", asm, {})
                    if given == "Some":
                        want = bx if sg else D
                    elif opt == "Some":
                        want = ox if so else D
                    else:
                        want = D
                    exp = T.acc_update(B.lv("accounts"), acc, **dict(anyf, booking=want))
                    label = "open, method %s%s, ledger's method %s%s" % ("given" if given == "Some" else "not given", "" if given == "None" else " and supported" if sg else " but unsupported",
                                                                        "given" if opt == "Some" else "not given", "" if opt == "None" else " and supported" if so else " but unsupported")
                    judge_diffs(ctx, r, T, label, T.diffs("accounts", rw, exp), field_diff(["booking"]))
                    r.count("situations")
    keeps(ctx, r, T, "booking", skip=("Open",))
    v, bks = txn_parts(T)
    for bk in bks:
        a = bk.a[1:]
        r.count("engine_calls")
        if a[2] is not B.options:
            judge_diffs(ctx, r, T, "booking engine: tolerance", diff(norm(a[2]), norm(B.options)))
        if a[4].op != "lam":
            r.undecide("booking engine: method lookup %s" % sh(a[4]))
            continue
        x = mk("bv", a[4].a[0], 0)
        L, n, body = a[4].a[0], a[4].a[1], a[4].a[2]
        xs = [y for y in subterms(body) if y.op == "bv"]
        x = xs[0] if xs else x
        for st in (0, 1):
            t = restrict(body, mk("has", B.lv("accounts"), x), st)
            want = fld("", "booking", mk("mval", B.lv("accounts"), x)) if st else ledger_method(T)
            judge_diffs(ctx, r, T, "booking engine: method of %s account" % ("an opened" if st else "an unknown"), [d for d in diff(norm(t), norm(want)) if not sup_default(T, d)])
    r.floor("situations", 16, "situations")


def sup_default(T, d):
    return False


def C21(ctx, r):
    r.explain = ("The arguments of the call of the booking engine for a transaction are compared with its date, all of its postings and the inventory of the account "
                 "asked for; the update afterwards with replacing the inventory of each account returned; and the unchanged states after a failure.")
    T = table(ctx)
    B = T.B
    v, bks = txn_parts(T)
    if not bks:
        raise facts.CannotDecide("no call of the booking engine for transactions")
    la = B.lv("accounts")
    fields = [n for n, _ in B.p.adts[B.AB]["variants"][0]["fields"]]
    for bk in bks:
        a = bk.a[1:]
        r.count("engine_calls")
        judge_diffs(ctx, r, T, "booking engine: date", diff(norm(a[0]), fld("", "date", B.e)))
        judge_diffs(ctx, r, T, "booking engine: postings", diff(norm(a[1]), fld("", "postings", v)))
        if a[3].op != "lam":
            r.undecide("booking engine: inventory lookup %s" % sh(a[3]))
        else:
            body = a[3].a[2]
            xs = sorted({y for y in subterms(body) if y.op == "bv"})
            x = xs[0] if xs else mk("bv", a[3].a[0], 0)
            want = case(mk("has", la, x), {0: NONE, 1: some(fld("", "positions", mk("mval", la, x)))})
            judge_diffs(ctx, r, T, "booking engine: inventory of an account", diff(norm(body), norm(want)))
        # failure
        row = Row("transaction that does not book", "Transaction", [(discr(RES, bk), "Err")], {})
        judge_diffs(ctx, r, T, row.name + ": account states", T.diffs("accounts", row, la))
        r.count("situations")
        # success
        post, upd = txn_anys(T, bk)
        row = Row("transaction that books", "Transaction", [(discr(RES, bk), "Ok")] + [(x, 0) for x in post + upd], {})
        act = T.act("accounts", row)
        ui = fld("", "updated_inventory", fld("Ok", "0", bk))
        r.count("situations")
        if act.op == "loopout":
            L, src, init, lvt, nx = act.a[0], act.a[1], act.a[2], act.a[3], act.a[4]
            e = mk("elem", L, ui)
            k = fld("", "0", e)
            exp = mk("loopout", L, ui, la, lvt, T.acc_update(lvt, k, **{n: (fld("", "1", e) if n == "positions" else fld("", n, mk("mval", lvt, k))) for n in fields}))
            nx2 = nx
            for p, st in B.state(k, "open"):
                nx2 = restrict(nx2, p, st)
                nx2 = restrict(nx2, mk("has", lvt, k), 1)
            act = mk("loopout", L, src, init, lvt, nx2)
            judge_diffs(ctx, r, T, row.name + ": account states", diff(norm(act), norm(exp)), lambda d: d.path[:1] != ("0",))
        else:
            if T.judge.opaque(act):
                r.undecide("how the inventories are replaced is not understood: %s" % sh(act))
            else:
                r.violate("transaction:inventories", "after a transaction that books the account states are %s" % sh(act), site(ctx))
    row, oacc = open_ok(T)
    dflt = [x for x in subterms(norm(T.act("accounts", row))) if x.op == "call" and last(x.a[0]) == "default" and "Positions" in sh(x)]
    anyf = {n: ANY for n in fields}
    if dflt:
        judge_diffs(ctx, r, T, row.name, T.diffs("accounts", row, T.acc_update(la, oacc, **dict(anyf, positions=dflt[0]))), field_diff(["positions"]))
    else:
        r.undecide("a new account does not start with the engine's empty inventory")
    keeps(ctx, r, T, "positions", skip=("Open", "Balance", "Transaction"))
    r.floor("engine_calls", 1, "calls of the booking engine")


def reported(ctx, r, T, label, row, idx, related, pick=lambda items: items):
    """index and related indexes of the errors a situation records; related: the acceptable terms"""
    for pc, items in T.appended("errors", row):
        if items is None:
            r.undecide("%s: errors not understood%s" % (label, cond(pc)))
            continue
        for it in pick(items):
            r.count("reports")
            if not is_adt(it) or it.a[0] != T.B.REP:
                r.undecide("%s: an error is recorded as %s" % (label, sh(it)))
                continue
            for what, f, es in (("index", "idx", [idx]), ("related indexes", "related", related)):
                best = None
                for e in es:
                    ds = diff(adt_field(it, f), norm(e))
                    for d in ds:
                        d.pc = AND(pc, d.pc)
                    if best is None or len(ds) < len(best):
                        best = ds
                judge_diffs(ctx, r, T, "%s: %s" % (label, what), best)


def C22(ctx, r):
    r.explain = ("The index and related indexes of the error recorded in every situation of the transition table are compared with the element processed, the pending "
                 "pad, and the entries of the account maps; the answer of the server is compared member by member with the reports resolved over the list of "
                 "directives that was booked.")
    T = table(ctx)
    B = T.B
    E = B.element()
    lo, lc, la = B.lv("open"), B.lv("closed"), B.lv("accounts")
    def rel(x):
        return some(seq(x))
    for v, f, others in (("Open", "acc", ()), ("Close", "acc", ()), ("Pad", "acc", ("source",)), ("Pad", "source", ("acc",)), ("Balance", "acc", ())):
        for st, acc, row in account_situations(T, v, f, others):
            if st == "open" and v != "Open":
                continue
            if st == "open":
                reported(ctx, r, T, row.name, row, E, [rel(mk("mval", lo, acc))])
            elif st == "closed":
                reported(ctx, r, T, row.name, row, E, [rel(mk("mval", lc, acc))] + ([NONE] if v == "Close" else []))
            elif v != "Open":
                reported(ctx, r, T, row.name, row, E, [NONE])
    v, acc = bal_parts(T)
    for pad in ("None", "Some"):
        for off in (False, True):
            for row in off_rows(T, pad, off, ("unlisted",)):
                reported(ctx, r, T, row.name + ", currency not declared", row, E, [rel(B.af(acc, "opened"))])
    pi, pel, e0, e1, src = pad_refs(T, acc)
    for row in off_rows(T, "Some", False):
        reported(ctx, r, T, row.name, row, pel, [NONE, rel(E)])
    for row in off_rows(T, "None", True):
        reported(ctx, r, T, row.name, row, E, [NONE, rel(B.af(acc, "opened"))])
    vp, pacc, psrc = pad_parts(T)
    row = pad_ok(T, "Some")
    old = fld("", "1", fld("Some", "0", B.af(pacc, "pad")))
    reported(ctx, r, T, row.name, row, old, [rel(E)])
    # transactions
    vt, bks = txn_parts(T)
    for bk in bks:
        row = Row("transaction that the engine refuses", "Transaction", [(discr(RES, bk), "Err")], {})
        reported(ctx, r, T, row.name, row, B.A(B.EIDX, directive=B.idx, posting=ANY), [NONE])
        refused_posting_reports(ctx, r, T, bk)
    # the account maps remember the directive
    row, oacc = open_ok(T)
    judge_diffs(ctx, r, T, row.name + ": opened", T.diffs("accounts", row, T.acc_update(la, oacc, **dict({n: ANY for n, _ in B.p.adts[B.AB]["variants"][0]["fields"]}, opened=E))))
    judge_diffs(ctx, r, T, row.name + ": open accounts", T.diffs("open", row, mk("mins", lo, oacc, E)))
    row, cacc = close_ok(T)
    judge_diffs(ctx, r, T, row.name + ": closed accounts", T.diffs("closed", row, mk("mins", lc, cacc, E)))
    row = pad_ok(T)
    judge_diffs(ctx, r, T, row.name, T.diffs("accounts", row, T.acc_update(la, pacc, **dict({n: ANY for n, _ in B.p.adts[B.AB]["variants"][0]["fields"]}, pad=some(tup(ANY, E))))))
    keeps(ctx, r, T, "opened", skip=("Open",))
    # pads pending at the end
    for pc, o, e in result_parts(T):
        if e is None:
            continue
        w = errors_of(T, e)
        for x in (w.a if w is not None and w.op == "cat" else [w] if w is not None else []):
            if x.op == "comp" and pad_pending(T, x) and not any(y is B.d for y in [x.a[1]]):
                for l in leaves(x.a[2]):
                    for it in (l.a if l.op == "seq" else []):
                        if is_adt(it) and it.a[0] == B.REP:
                            r.count("reports")
                            i = adt_field(it, "idx")
                            if i.op == "fld" and i.a[1] == "1" and any(y.op == "fld" and y.a[1] == "pad" for y in subterms(i)):
                                continue
                            if i.op == "fld" and i.a[1] == "1" and i.a[2].op == "elem":
                                continue
                            (r.undecide if T.judge.opaque(i) or i.op in ("elem", "fld") else lambda w: r.violate("end:index", w, site(ctx)))("a pad pending at the end is reported at %s" % sh(i))
    r.floor("reports", 20, "reports")
    resolved_reports(ctx, r, T)


def refused_posting_reports(ctx, r, T, bk):
    """an account or currency error of a posting carries the place of the first refused posting"""
    B = T.B
    post, upd = txn_anys(T, bk)
    lo, lc, la = B.lv("open"), B.lv("closed"), B.lv("accounts")
    for x in post:
        asm = [(discr(RES, bk), "Ok"), (x, 1)]
        row = Row("transaction with a refused posting", "Transaction", asm, {})
        for pc, items in T.appended("errors", row):
            if not items:
                continue
            for it in items:
                r.count("reports")
                if not is_adt(it) or it.a[0] != B.REP:
                    r.undecide("refused posting: recorded as %s" % sh(it))
                    continue
                ds = diff(adt_field(it, "idx"), norm(B.A(B.EIDX, directive=B.idx, posting=ANY)))
                judge_diffs(ctx, r, T, row.name + ": index", ds)
                i = adt_field(it, "idx")
                p = adt_field(i, "posting") if is_adt(i) else None
                if p is None:
                    continue
                for l in leaves(p):
                    if is_adt(l) and l.a[1] == "None":
                        r.violate("posting:none", "an account or currency error of a posting does not say which posting", site(ctx))
                    elif is_adt(l) and l.a[1] == "Some":
                        q = l.a[3]
                        if q.op == "firstidx" and alpha(q.a[2]) is alpha(norm(x).a[2]) and same_source(q.a[1], norm(x).a[1]):
                            continue
                        if q.op == "call" and q.a[0] == "filtered_index":
                            r.violate("posting:filtered", "a refused posting is reported by its place among some of the postings only", site(ctx))
                        elif q.op == "firstidx" and not T.judge.opaque(q):
                            r.violate("posting:other", "a refused posting is reported at %s, not at the first posting that is refused" % sh(q), site(ctx))
                        elif not T.judge.opaque(q):
                            r.violate("posting:other", "a refused posting is reported at %s" % sh(q), site(ctx))
                        else:
                            r.undecide("a refused posting is reported at %s" % sh(q))
                # related: by the state of the account of that posting
                accs = set()
                relt = adt_field(it, "related")
                for s in subterms(relt):
                    if s.op == "has" and s.a[0] in (lo, lc) and any(y.op == "first" for y in subterms(s.a[1])):
                        accs.add(s.a[1])
                for a in accs:
                    for st, want in (("closed", some(seq(mk("mval", lc, a)))), ("never", NONE), ("open", some(seq(fld("", "opened", mk("mval", la, a)))))):
                        t = deep(relt, B.state(a, st))
                        for s, l in B.state(a, st):
                            t = restrict(t, s, l)
                        ds = [d for d in diff(norm(t), norm(want))]
                        r.count("obligations")
                        judge_diffs(ctx, r, T, "posting to an account that is %s: related" % {"open": "open, currency not declared", "closed": "closed", "never": "not open"}[st], ds)
                if not accs:
                    r.undecide("related indexes of a refused posting: %s" % sh(relt))


def same_source(a, b):
    return alpha(a) is alpha(b)


def resolved_reports(ctx, r, T):
    """what the server makes of the errors of a booking of the ledger's own directives"""
    from rules import server_rules as R
    from rules import ledger
    from lb.spec import O, S, each, on, opt
    n = 0
    m = R.method(ctx, "book")
    for a, pc, j, f in ctx.answers(method=m, request="Ok", parse="Ok", sources="Ok"):
        if j is None:
            continue
        d = R.member(R.member(j, "error"), "data")
        for who in ("None", "Some"):
            d1, p1 = d, pc
            for q in R.params_atoms(ctx, pc, j):
                d1, p1 = restrict(d1, q, who), restrict(p1, q, who)
            for q in R.book_calls(pc, j):
                d1, p1 = restrict(d1, q, "Err"), restrict(p1, q, "Err")
            if d1 is ABSENT_ or p1 is FALSE:
                continue
            calls = [x for x in subterms(d1) if x.op == "call" and x.a[0] == "booking::book"]
            if not calls:
                continue
            bk = calls[0]
            errs = [x for x in subterms(d1) if x.op == "fld" and x.a[1] == "errors" and x.a[2].op == "fld" and x.a[2].a[2] in calls]
            if not errs:
                r.undecide("errors of booking not found in the answer")
                continue
            DIRS, ERRS = mk("param", "DIRS"), mk("param", "ERRS")
            Xs = {y for x in calls for y in [x.a[1]] + list(leaves(x.a[1]))}
            for q in R.params_atoms(ctx, pc, j):
                Xs.add(restrict(bk.a[1], q, who))
            act = subst(subst(d1, {x: ERRS for x in errs}), {x: DIRS for x in Xs})
            n += 1
            DV = T.B.DV
            kinds = {v: S(v.lower()) for v in UNIV[DV]}

            def resolve(ix, sp):
                dv = mk("index", DIRS, fld("", "directive", ix))
                p = fld("", "posting", ix)
                own = sp(fld("Some", "0", fld("", "span", dv)))
                kind = on(DV, fld("", "variant", dv), kinds)
                txn = fld("Transaction", "0", fld("", "variant", dv))
                pst = sp(fld("Some", "0", fld("", "span", mk("index", fld("", "postings", txn), fld("Some", "0", p)))))
                def pick(x, y):
                    return opt(p, lambda _: on(DV, fld("", "variant", dv), {v: (y if v == "Transaction" else (x if x.op != "case" else S(v.lower()))) for v in UNIV[DV]}), x)
                return pick(kind, S("posting")), pick(own, pst)

            def item(e):
                if who == "Some":
                    place = lambda ix: mk("arr", fld("", "directive", ix), opt(fld("", "posting", ix)))
                    return O(reason=fld("", "reason", e), idx=place(fld("", "idx", e)), related=opt(fld("", "related", e), lambda x: each(x, place)), annotation=opt(fld("", "annotation", e)))
                k, s = resolve(fld("", "idx", e), ledger.span)
                dv = mk("index", DIRS, fld("", "directive", fld("", "idx", e)))
                def related(ix):
                    k2, s2 = resolve(ix, lambda x: x)
                    return mk("arr", k2, s2)
                return O(message=mk("fmt", S("invalid "), mk("disp", k)), reason=fld("", "reason", e), span=s,
                         contexts=opt(fld("", "posting", fld("", "idx", e)), lambda _: seq(mk("arr", on(DV, fld("", "variant", dv), kinds), fld("Some", "0", fld("", "span", dv))))),
                         related=opt(fld("", "related", e), lambda x: each(x, related)),
                         annotation=opt(fld("", "annotation", e)))
            label = "answer for %s" % ("the client's directives" if who == "Some" else "the ledger's directives")
            jj = Judge(lambda name: ctx.judge.accessor(name))
            if who == "None":
                # directives of the ledger and their postings have spans (C06)
                act = rewrite(act, lambda x: K("Some") if x.op == "discr" and x.a[1].op == "fld" and x.a[1].a[1] == "span" and any(y is DIRS for y in subterms(x)) else x)
            if who == "Some":
                act = ctx.J(act, "std::vec::Vec<%s>" % T.B.REP)
            ctx.compare(r, label, act, each(ERRS, item), judge=jj, site=a.writes[0].site)
            r.count("answers")
    if not n:
        r.undecide("no answer with the reports of a failed booking found")
