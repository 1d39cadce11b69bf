"""C29: what the annotation of a failed balance assertion lists."""
from engine.terms import *
from lb.booking import num, deep, settle, truth, last
from lb.judge import Diff, alpha, diff, rewrite, sh
from lb.norm import norm
from lb import facts
from rules.booking_rules import (table, site, judge_diffs, cond, off_rows, bal_parts, open_ok, opt_is, F, NAMES, text_settle, selects_accounts, keeps,
                                 forced_scruts, over, Table)


def produced(t, gens=(), pc=TRUE):
    """[(generators, condition, item)] of a list term; None if it is not understood; raises Reordered"""
    o = t.op
    if o == "seq":
        return [(gens, pc, x) for x in t.a]
    if o == "case":
        s, it, d = case_items(t)
        out = []
        for l, y in it.items():
            out += need(produced(y, gens, AND(pc, eqlabel(s, l))))
        if d is not None:
            out += need(produced(d, gens, pc))
        return out
    if o == "cat":
        out = []
        for y in t.a:
            out += need(produced(y, gens, pc))
        return out
    if o == "comp":
        L, src, body = t.a
        if src.op in ("comp", "cat", "seq", "case"):
            out = []
            e = mk("elem", L, src)
            for g, c, x in need(produced(src, gens, pc)):
                b = subst(body, {e: x})
                if any(y.op == "idx" and y.a[0] == L for y in subterms(b)):
                    raise Odd(t)
                out += need(produced(b, g, c))
            return out
        if src.op == "skip" and src.a[0].op == "lv":          # a window of the entries
            return produced(body, gens + ((L, src),), pc)
        if src.op in ("rev", "sorted", "unord") or src.op in PARTIAL or src.op == "call" and last(src.a[0]) in PARTIAL:
            raise Odd(src)
        return produced(body, gens + ((L, src),), pc)
    raise Odd(t)


def of_entries(t, booked):
    """is this a part of the entries themselves, a window"""
    while t.op in PARTIAL or t.op == "call" and last(t.a[0]) in PARTIAL + ("slice",):
        t = t.a[0] if t.op != "call" else t.a[1]
    return t is booked


PARTIAL = ("take", "skip", "step_by", "skip_while", "take_while")


class Odd(Exception):
    pass


def need(x):
    return x


def holds(pc, asm, env):
    """truth of a condition in a situation; None when it is left open"""
    for s, l in asm:
        pc = restrict(pc, s, l)
    t = settled_case(deep(pc, asm), env)
    return 1 if t is YES else 0 if t is NO else None


YES, NO = S("yes"), S("no")


def settled_case(pc, env):
    return text_settle(ITE(pc, YES, NO), env)


class Listing:
    def __init__(self, ctx, r, T):
        self.ctx, self.r, self.T, self.B = ctx, r, T, T.B
        self.v, self.acc = bal_parts(T)
        self.cur = fld("", "cur", self.v)
        self.booked = self.B.lv("booked")

    def member(self, label, pc, D, P, opaque_ok=False):
        """a condition holds exactly for the postings of transactions in the asserted currency to the account and below"""
        r, B = self.r, self.B
        dv = mk("discr", B.BV, fld("", "variant", D))
        accname = fld("", "acc", P)
        same = eq(self.cur, fld("", "cur", P))
        okay = True
        for var in sorted(UNIV[B.BV]):
            for c in (1, 0):
                for base, name, want in NAMES:
                    w = int(var == "Transaction" and c == 1 and want == 1)
                    got = holds(pc, [(dv, var), (same, c)], {self.acc: base, accname: name})
                    r.count("name_cases")
                    if got == w:
                        continue
                    what = "%s: a posting of a %s in %s currency to %s" % (label, var, "the asserted" if c else "another", name)
                    if got is None:
                        rest = settled_case(deep(restrict(restrict(pc, dv, var), same, c), [(dv, var), (same, c)]), {self.acc: base, accname: name})
                        # a condition on the names that has no known value for these names is not understood
                        bad = [s for s in rest.sc if self.T.judge.opaque(s) or any(x in (self.acc, accname) for x in subterms(s))]
                        if bad or not rest.sc:
                            r.undecide("%s is not decided: %s" % (what, sh(rest)))
                        else:
                            r.violate("%s:condition" % label, "%s is subject to %s for a balance of %s" % (what, sh(rest), base), site(self.ctx))
                    else:
                        r.violate("%s:%s" % (label, "left out" if w else "included"), "%s is %s for a balance of %s" % (what, "left out" if w else "included", base), site(self.ctx))
                    return False
        return okay

    def postings(self, label, ps):
        """the generators of productions are the transactions of the window and their postings; returns (D, P, lower bound, productions)"""
        r = self.r
        keys = {g for g, _, _ in ps}
        if len(keys) != 1:
            r.undecide("%s: collected from %d places" % (label, len(keys)))
            return None
        g = list(keys)[0]
        if len(g) != 2:
            r.undecide("%s: collected by %d nested iterations" % (label, len(g)))
            return None
        (L1, s1), (L2, s2) = g
        D, P = mk("elem", L1, s1), mk("elem", L2, s2)
        if s2 is not fld("", "postings", fld("Transaction", "0", fld("", "variant", D))):
            if s2.op in ("slice", "skip", "rev") and any(x is fld("Transaction", "0", fld("", "variant", D)) for x in subterms(s2)):
                r.violate("%s:postings" % label, "%s: taken from %s instead of all postings" % (label, sh(s2)), site(self.ctx))
            else:
                r.undecide("%s: taken from %s" % (label, sh(s2)))
            return None
        if s1.op == "call" and last(s1.a[0]) == "slice" and s1.a[1] is self.booked and all(self.bounds(x) for x in leaves(s1.a[2])):
            lo, hi = (dist(s1.a[2], lambda x, i=i: self.bounds(x)[i]) for i in (0, 1))
        elif s1.op == "skip" and any(x is self.booked for x in s1.a):
            lo, hi = [x for x in s1.a if x is not self.booked][0], length(self.booked)
        elif s1 is self.booked:
            lo, hi = K(0), length(self.booked)
        else:
            r.undecide("%s: taken from %s" % (label, show(s1,0,12)))
            return None
        pc = FALSE
        for _, c, _ in ps:
            pc = OR(pc, c)
        return D, P, lo, hi, pc

    def bounds(self, x):
        """(start, end) of a range of entries"""
        if x.op == "range":
            return x.a[:2]
        if x.op == "adt" and last(x.a[0]) == "RangeFrom":
            return x.a[3], length(self.booked)
        if x.op == "adt" and last(x.a[0]) == "RangeTo":
            return K(0), x.a[3]
        if x.op == "adt" and last(x.a[0]) == "RangeFull":
            return K(0), length(self.booked)
        return None

    def window(self, lo, hi):
        """the window starts where the previous assertion on the account was and ends at the current one"""
        r, T, B, ctx = self.r, self.T, self.B, self.ctx
        r.count("obligations", 2)
        if hi is not length(self.booked):
            judge_diffs(ctx, r, T, "window", [Diff(("end",), TRUE, hi, length(self.booked))])
        A = B.account(self.acc)
        others = [x for x in subterms(lo) if x.op in ("lv", "mval", "call", "has") and x is not A and x is not B.lv("accounts") and x is not self.booked]
        if lo.op == "k":
            r.violate("window:start", "the postings listed start at entry %s whatever was asserted before" % sh(lo), site(ctx))
            return
        if others or A not in set(subterms(lo)):
            r.undecide("window: starts at %s" % sh(lo))
            return

        def fresh(acct):
            return norm(subst(lo, {A: acct}))
        # a new account: from the start
        row, oacc = open_ok(T)
        t = norm(T.act("accounts", row))
        news = {x.a[2] for x in subterms(t) if x.op == "mins" and x.a[2].op == "adt" and x.a[2].a[0] == B.AB}
        for n in news:
            r.count("obligations")
            judge_diffs(ctx, r, T, "window of the first assertion", [Diff(("start",), TRUE, x, K(0)) for x in leaves(fresh(n)) if x is not K(0)])
        # after an assertion, whatever its outcome: from there
        for off in (True, False):
            for pad in ("None", "Some"):
                for row in off_rows(T, pad, off):
                    t = norm(T.act("accounts", row))
                    upd = [x for x in subterms(t) if x.op == "mins" and x.a[1] is self.acc and x.a[2].op == "adt" and x.a[2].a[0] == B.AB]
                    for x in upd:
                        r.count("obligations")
                        for l in leaves(fresh(x.a[2])):
                            if l is not length(self.booked) and l is not BOT:
                                judge_diffs(ctx, r, T, "window after a%s" % row.name[1:] if False else "window after " + row.name, [Diff(("start",), TRUE, l, length(self.booked))])
                    if not upd:
                        r.violate("window:update", "%s: the start of the next window is not recorded" % row.name, site(ctx))
        for f in {x.a[1] for x in subterms(lo) if x.op == "fld" and x.a[2] is A}:
            keeps(ctx, r, T, f, skip=("Open", "Balance"))

    def start(self, t, lo):
        """the running total starts from what was asserted before in the same currency"""
        r, T, B, ctx = self.r, self.T, self.B, self.ctx
        prev = mk("index", self.booked, lo)
        bw = [x for x in t.sc if x.op == "discr" and x.a[0] == OPT]

        def both(t, lo, xs):
            if not xs:
                yield t, lo, ()
                return
            for l in ("None", "Some"):
                yield from both(deep(restrict(t, xs[0], l), [(xs[0], l)]), deep(restrict(lo, xs[0], l), [(xs[0], l)]), xs[1:])
        for t1, lo1, _ in both(t, lo, bw):
            prev = mk("index", self.booked, lo1)
            inb = lt(lo1, length(self.booked))
            vd = mk("discr", B.BV, fld("", "variant", prev))
            raw = fld("", "raw", fld("Balance", "0", fld("", "variant", prev)))
            for var in sorted(UNIV[B.BV]):
                if lo1 is K(0) and var == "Balance":
                    continue            # an assertion follows the opening of its account
                r.count("obligations")
                a = norm(deep(restrict(restrict(t1, inb, 1), vd, var), [(inb, 1), (vd, var)]))
                e = K(0)
                if var == "Balance":
                    e = case(eq(self.cur, fld("", "cur", raw)), {0: K(0), 1: fld("", "units", raw)})
                elif lo1 is not K(0):
                    continue            # the window of a later assertion starts at the previous one
                judge_diffs(ctx, r, T, "running total before the first posting listed", diff(a, norm(e)))

    def running(self, cell, D, P, lo, pc):
        """the running total: units added one posting after the other"""
        r, T, B, ctx = self.r, self.T, self.B, self.ctx
        units = fld("", "units", P)
        ls = [x for x in subterms(cell) if x.op == "lv" and x is not self.booked and x not in [p.lv for p in B.parts.values()]]
        if not ls:
            if not T.judge.opaque(cell):
                r.violate("running total", "the running total of a posting listed is %s" % sh(cell), site(ctx))
            else:
                r.undecide("running total: %s" % sh(cell))
            return
        lv = ls[0]
        judge_diffs(ctx, r, T, "running total", diff(norm(cell), norm(add(lv, units))))
        chain = []
        for _ in range(6):
            rec = [(L, w) for L in B.I.loops for w in L.W.values() if w[0] is lv]
            if not rec:
                break
            L, (l, init, nx) = rec[0]
            chain.append((L, l, init, nx))
            if init.op == "lv":
                lv = init
                continue
            break
        else:
            chain = []
        if not chain or len(chain) != 2:
            r.undecide("running total: accumulated over %d nested iterations" % len(chain))
            return
        (Li, li, ii, ni), (Lo, lo_, io, no) = chain
        if ii is not lo_:
            judge_diffs(ctx, r, T, "running total within a transaction", [Diff(("start",), TRUE, ii, lo_)])
            return
        # inner: units of the postings listed
        bal = self.row_asm()
        self.steps("running total", ni, li, units, D, P, bal)
        # outer: only transactions count, by the total over their postings
        t = norm(self.settled(no))
        dv = mk("discr", B.BV, fld("", "variant", D))
        for var in sorted(UNIV[B.BV]):
            r.count("obligations")
            a = restrict(t, dv, var)
            if var != "Transaction":
                judge_diffs(ctx, r, T, "running total after a %s" % var, diff(a, lo_))
        self.start(self.settled(io), self.settled(lo))

    def row_asm(self):
        return []

    def settled(self, t):
        return self.B.apply(restrict(t, self.B.D, "Balance"), self.row.asm)

    def steps(self, label, nx, lv, units, D, P, asm):
        """each posting listed, and no other, adds its units"""
        r = self.r
        t = norm(self.settled(nx))
        ps = []

        def go(x, pc):
            if x.op == "case":
                s, it, d = case_items(x)
                for l, y in it.items():
                    go(y, AND(pc, eqlabel(s, l)))
                if d is not None:
                    go(d, pc)
            elif x is not BOT:
                ps.append((pc, x))
        go(t, TRUE)
        inc = FALSE
        for pc, x in ps:
            if x is lv:
                continue
            ds = diff(x, norm(add(lv, units)))
            for d in ds:
                d.pc = pc
            judge_diffs(self.ctx, r, self.T, label + " after a posting", ds)
            inc = OR(inc, pc)
        dv = mk("discr", self.B.BV, fld("", "variant", D))
        self.member(label, AND(inc, eqlabel(dv, "Transaction")), D, P)


def inner(c):
    """what a cell shows"""
    while True:
        if c.op == "adt" and len(c.a) >= 4 and last(c.a[0]) == "Cell":
            c = c.a[3]
        elif c.op == "tup" and c.a:
            c = c.a[0]
        else:
            return c


def C29(ctx, r):
    r.explain = ("The annotation recorded for a failed assertion is unfolded into what produces its rows: the iterations (booked entries since the end of the "
                 "previous window, postings of transactions), the condition (evaluated for every kind of entry, currency and relation of account names) and the "
                 "cells; the running total is followed through the loops that accumulate it, and the window through every directive that changes it.")
    T = table(ctx)
    B = T.B
    Z = Listing(ctx, r, T)
    rows = list(off_rows(T, "None", True))
    seen = set()
    done = False
    for row in rows:
        Z.row = row
        for pc, items in T.appended("errors", row):
            if items is None:
                r.undecide("%s: errors not understood%s" % (row.name, cond(pc)))
                continue
            for it in items:
                if not is_adt(it) or it.a[0] != B.REP:
                    r.undecide("%s: an error is recorded as %s" % (row.name, sh(it)))
                    continue
                an = adt_field(it, "annotation")
                reason(ctx, r, T, Z, adt_field(it, "reason"), seen)
                for a in leaves(an):
                    if a in seen:
                        continue
                    seen.add(a)
                    r.count("annotations")
                    if a is NONE:
                        bad = [x for x in forced_scruts(pc) + list(an.sc) if T.judge.opaque(x)]
                        (r.undecide if bad or an.op == "case" else lambda w: r.violate("annotation", w, site(ctx)))("%s: no annotation%s" % (row.name, cond(pc)))
                        continue
                    done = annotation(ctx, r, T, Z, a) or done
    r.floor("annotations", 1, "annotations")
    if not done and not r.undecided and not r.violations:
        r.undecide("no list of postings found in the annotation")


def shown(x):
    """what a cell shows, not what it depends on"""
    for l in leaves(x):
        yield from subterms(l)


def annotation(ctx, r, T, Z, a):
    B = T.B
    stacks = [x for x in subterms(a) if x.op == "adt" and last(x.a[0]) == "Cell" and x.a[1] in ("Stack", "Column")]
    if not stacks:
        r.undecide("annotation: %s" % sh(a))
        return False
    if len(stacks) > 1:
        r.undecide("annotation of %d lists" % len(stacks))
        return False
    try:
        ps = produced(stacks[0].a[3])
    except Odd as e:
        t = e.args[0]
        if t.op == "rev" or (t.op == "unord" and not T.judge.opaque(t)):
            r.violate("annotation:order", "the postings listed are not in order: %s" % sh(t), site(ctx))
        elif (t.op in PARTIAL or t.op == "call" and last(t.a[0]) in PARTIAL) and not of_entries(t, B.lv("booked")):
            r.violate("annotation:part", "only part of the postings are listed: %s" % sh(t), site(ctx))
        else:
            r.undecide("annotation: lists %s" % sh(t))
        return False
    if not ps:
        r.violate("annotation", "nothing is listed", site(ctx))
        return False
    g = Z.postings("annotation", ps)
    if g is None:
        return False
    D, P, lo, hi, pc = g
    Z.member("annotation", Z.settled(pc), D, P)
    Z.window(Z.settled(lo), Z.settled(hi))
    # the cells
    txn = fld("Transaction", "0", fld("", "variant", D))
    pay, nar = fld("", "payee", txn), fld("", "narration", txn)
    for _, c, it in ps:
        if it.op != "adt" or it.a[1] != "Row" or it.a[3].op != "seq":
            r.undecide("annotation: an entry is %s" % sh(it))
            continue
        cells = list(it.a[3].a)
        r.count("cells", len(cells))
        date, units = fld("", "date", D), fld("", "units", P)
        at = {}
        state = {p.lv for p in B.parts.values()} | {p.lv for _, p in B.extra}
        rest = []
        for i, x in enumerate(cells):
            k = inner(x)
            if any(y is date for y in shown(k)):
                at["date"] = (i, k)
            elif any(y.op == "lv" and y not in state for y in shown(k)):
                at["running total"] = (i, k)
            elif any(y is units for y in shown(k)):
                at.setdefault("units", (i, k))
            elif any(y is pay or y is nar for y in shown(x)):
                at["payee or narration"] = (i, x)
            else:
                rest.append((i, x))
        for what in ("date", "units", "running total", "payee or narration"):
            if what not in at:
                bad = [x for _, x in rest if T.judge.opaque(x)]
                (r.undecide if bad else lambda w: r.violate("annotation:" + what, w, site(ctx)))("annotation: the %s of a posting is not listed" % what)
        if any(w not in at for w in ("date", "units", "running total", "payee or narration")):
            continue
        d = at["date"][1]
        while d.op in ("fmt", "disp", "text", "tostr") and len(d.a) == 1:
            d = d.a[0]
        judge_diffs(ctx, r, T, "annotation: date", [] if d is date else [Diff((), TRUE, d, date)])
        judge_diffs(ctx, r, T, "annotation: units", diff(norm(at["units"][1]), norm(units)))
        Z.running(at["running total"][1], D, P, lo, pc)
        if not (at["units"][0] < at["running total"][0]):
            r.violate("annotation:columns", "the running total is listed before the units", site(ctx))
        x = at["payee or narration"][1]
        for pl in ("Some", "None"):
            for nl in ("Some", "None"):
                asm = [(mk("discr", OPT, pay), pl), (mk("discr", OPT, nar), nl)]
                t = deep(restrict(restrict(x, asm[0][0], pl), asm[1][0], nl), asm)
                want = fld("Some", "0", pay) if pl == "Some" else fld("Some", "0", nar) if nl == "Some" else None
                for l in leaves(t):
                    k = inner(l)
                    r.count("obligations")
                    if want is None:
                        if any(y is pay or y is nar for y in subterms(k)):
                            r.undecide("annotation: description %s without payee and narration" % sh(k))
                    elif k is not want:
                        while k.op in ("fmt", "disp", "text", "tostr") and len(k.a) == 1:
                            k = k.a[0]
                        if k is not want:
                            judge_diffs(ctx, r, T, "annotation: payee or narration", [Diff((), TRUE, k, want)])
    return True


def reason(ctx, r, T, Z, t, seen):
    """what a total in the reason counts"""
    B = T.B

    def flat(ps):
        out = []
        for g, c, x in ps:
            if x.op == "sum":
                out += flat(produced(x.a[0], g, c))
            else:
                out.append((g, c, x))
        return out
    tops = []

    def go(x):
        if x.op == "sum":
            if not over(x, B.lv("accounts")):
                tops.append(x)
            return
        for k in x.kids:
            go(k)
    go(t)
    for x in tops:
        if x in seen:
            continue
        seen.add(x)
        r.count("totals")
        try:
            ps = flat([((), TRUE, x)])
        except Odd as e:
            r.undecide("total given as reason: %s" % sh(e.args[0]))
            continue
        g = Z.postings("total given as reason", ps)
        if g is None:
            continue
        D, P, lo, hi, pc = g
        Z.member("total given as reason", Z.settled(pc), D, P)
        Z.window(Z.settled(lo), Z.settled(hi))
        for _, c, it in ps:
            judge_diffs(ctx, r, T, "total given as reason", diff(norm(it), norm(fld("", "units", P))))
