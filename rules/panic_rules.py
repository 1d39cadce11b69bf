"""C05: nothing that a ledger or a request can contain makes the server panic or exit."""
import re
from engine.terms import *
from lb.ctx import where
from lb.judge import rewrite, sh
from lb import facts
from rules.order_rules import calls

# what ends the thread when reached
DIVERGE = re.compile(r"(panicking::|::panic_fmt|begin_panic|unwrap_failed|expect_failed|process::(exit|abort)|slice_index_fail|slice_(start|end)_index|panic_display|unreachable_unchecked)")
PARTIAL = re.compile(r"(Option::<T>::(unwrap|expect)$|Result::<T, E>::(unwrap|expect|unwrap_err|expect_err)$|ops::Index(Mut)?::index(_mut)?$|Vec::<T, A>::(remove|swap_remove|insert|drain|split_off|splice|copy_within)$|"
                     r"slice::.*::(split_at|split_at_mut|swap|copy_from_slice|clone_from_slice|chunks\w*|windows|rotate_\w+|select_nth\w*|first_chunk)$|str::.*::(split_at|split_at_mut)$|String::(insert|insert_str|remove|drain|truncate|replace_range|split_off)$|"
                     r"RefCell::<T>::(borrow|borrow_mut|replace|swap)$|Iterator::step_by$|Duration::\w*from_secs_f|Ord::clamp$)")
DEBUG_ASSERT = ("Misaligned", "NullPointer")
WRITES = ("io_result", "write", "flush")


def chain(t):
    """the projections applied to a base: (((variant, name), ...), base)"""
    c = []
    while t.op == "fld":
        c.append((t.a[0], t.a[1]))
        t = t.a[2]
    c.reverse()
    return tuple(c), t


def proj(v, path):
    for va, na in path:
        v = fld(va, na, v)
    return v


def branches(t, pc):
    if pc is FALSE:
        return
    if t.op == "case":
        s, it, d = case_items(t)
        rest = pc
        for l, v in it.items():
            e = eqlabel(s, l)
            yield from branches(v, AND(pc, e))
            rest = AND(rest, NOT(e))
        if d is not None:
            yield from branches(d, rest)
    elif t is not BOT and t.op != "bot":
        yield pc, t


def offset(i):
    """i as (base, constant)"""
    if i.op == "add":
        for j in (0, 1):
            if i.a[j].op == "k" and isinstance(i.a[j].a[0], int):
                b, o = offset(i.a[1 - j])
                return b, o + i.a[j].a[0]
    return i, 0


def atoms(pc, seen=None, out=None):
    """what the conditions ask, in the order they are asked"""
    if seen is None:
        seen, out = set(), []
    if pc in seen:
        return out
    seen.add(pc)
    if pc.op == "case":
        if pc.a[0] not in out:
            out.append(pc.a[0])
        for k in pc.kids[1:]:
            atoms(k, seen, out)
    elif pc.op not in ("k",) and pc not in out:
        out.append(pc)
    return out


class Cells:
    """what holds of the variables carried from one iteration to the next"""

    def __init__(self, I):
        self.I = I
        self.c = {}                       # cell -> (start, next, loop)
        for l in I.loops:
            for place, (lv, init, nx) in l.W.items():
                self.c[lv] = (init, nx, l)
        self.memo = {}

    def once(f):
        def g(self, *a):
            k = (f.__name__,) + a
            if k not in self.memo:
                self.memo[k] = None       # while it is being shown it may not be used
                self.memo[k] = f(self, *a)
            return self.memo[k]
        return g

    def root(self, lv):
        """the outermost cell whose value this one starts from"""
        while lv.op == "lv" and lv in self.c and self.c[lv][0].op == "lv":
            lv = self.c[lv][0]
        return lv

    def family(self, m):
        r = self.root(m)
        return [x for x in self.c if self.root(x) is r]

    # ---- maps
    def writes(self, m):
        """((condition, key, value) written to the map, [what else happens to it])"""
        k = ("writes", m)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = ([], [])
        ws, other = [], []
        fam = self.family(m)
        for x in fam:
            init, nx, l = self.c[x]
            todo = [(pc, t) for pc, t in branches(nx, TRUE)]
            seen = set()
            while todo:
                pc, t = todo.pop()
                if (pc, t) in seen:
                    continue
                seen.add((pc, t))
                if t.op == "case":
                    todo += list(branches(t, pc))
                elif t.op == "mins":
                    ws.append((pc, t.a[1], t.a[2], x))
                    todo.append((pc, t.a[0]))
                elif t in fam:
                    pass
                elif t.op == "loopout":
                    todo.append((pc, t.a[2]))
                elif t.op == "mrem":
                    other.append((pc, "an entry is removed", t))
                    todo.append((pc, t.a[0]))
                else:
                    other.append((pc, "it is replaced by %s" % sh(t, 60), t))
        self.memo[k] = (ws, other)
        return self.memo[k]

    @once
    def keeps(self, m):
        """no key ever leaves the map: (yes, why not)"""
        if self.root(m) not in self.c:
            return False, "is not followed"
        ws, other = self.writes(m)
        return not other, other[0][1] if other else None

    @once
    def within(self, o, m):
        """every key of map o is a key of map m, at the start of every iteration"""
        o, m = self.root(o), self.root(m)
        if o not in self.c or m not in self.c or not self.keeps(m)[0]:
            return False
        oi, on, ol = self.c[o]
        mi, mn, ml = self.c[m]
        if ol is not ml or leaves(oi) != leaves(mi) or any(x.op != "tomap" and x is not mapempty() for x in leaves(oi)):
            if not (oi is mi):
                return False
        ws, other = self.writes(o)
        for pc, what, t in other:
            if t.op != "mrem":
                return False
        for pc, k, v, x in ws:
            if x is not o:
                return False
            h = simp(m_has(simp(mn, pc), k), pc)
            if h is not TRUE and AND(pc, NOT(h)) is not FALSE:
                return False
        return True

    def maps_within(self, m):
        return [o for o in self.c if o is not self.root(m) and self.root(o) is o and o.op == "lv" and ("has" in self.asked(o)) and self.within(o, m)]

    @once
    def asked(self, o):
        r = set()
        for x in self.c:
            for y in subterms(self.c[x][1]):
                if y.op == "has" and self.root(y.a[0]) is o:
                    return {"has"}
        return r

    # ---- lists
    @once
    def grows(self, b):
        """elements are only added at the end, and those there keep their variant"""
        if b not in self.c:
            return False, "is not followed"
        init, nx, l = self.c[b]
        for pc, t in branches(nx, TRUE):
            while t.op in ("cat", "vupd"):
                if t.op == "vupd":
                    old = fld("", "variant", index(b, t.a[1]))
                    new = fld("", "variant", t.a[2])
                    for pc2, v in branches(new, pc):
                        if v is old:
                            continue
                        d = forced(pc2)
                        if v.op == "adt" and any(s.op == "discr" and s.a[1] is old and lab == v.a[1] for s, lab in d.items()):
                            continue
                        return False, "an element is replaced by one of another kind"
                t = t.a[0]
                if t.op == "case":
                    break
            if t.op == "case":
                for y in leaves(t):
                    if y is not b and y.op != "vupd":
                        return False, "is rewritten"
            elif t is not b:
                return False, "is replaced by %s" % sh(t, 60)
        return True, None

    def added(self, b, pc):
        """[(condition, elements added)] in an iteration with this condition"""
        out = []
        for pc2, t in branches(simp(self.c[b][1], pc), pc):
            items = []
            while t.op == "cat":
                items = list(t.a[1:]) + items
                t = t.a[0]
            els = []
            for x in items:
                if x.op == "seq":
                    els += list(x.a)
                else:
                    break
            out.append((pc2, els))
        return out

    @once
    def stored(self, m, path):
        """[(condition, value)] of what is stored at this path of the values of the map"""
        ws, other = self.writes(m)
        fam = self.family(m)
        out = []
        for pc, k, v, x in ws:
            for pc2, y in branches(proj(v, path), pc):
                c, base = chain(y)
                if c == path and base.op == "mval" and (base.a[0] in fam or self.root(base.a[0]) is self.root(m)):
                    continue
                out.append((pc2, y))
        return out

    def cell_index(self, t):
        """t is an index stored in the values of a map: (map, path) or None"""
        c, base = chain(t)
        if c and base.op == "mval" and self.root(base.a[0]) in self.c:
            return self.root(base.a[0]), c
        return None

    @once
    def points(self, b, m, path):
        """what an index stored there points to: (fewest elements after it, [(condition, elements)], reason if nothing is known)"""
        if b not in self.c:
            return None, [], "the list is not followed", False
        g, why = self.grows(b)
        if not g:
            return None, [], why, False
        n, els = None, []
        for pc, x in self.stored(m, path):
            base, o = offset(x)
            if base.op != "len" or base.a[0] is not b:
                return None, [], "%s is stored as an index" % sh(x, 60), False
            for pc2, e in self.added(b, pc):
                e = e[o:]
                els.append((pc2, e))
                n = len(e) if n is None else min(n, len(e))
        if n is None:
            return None, [], "nothing is stored there", False
        return n, els, None, True

    def bound(self, t, b):
        """t never exceeds the length of list b"""
        if t.op == "k":
            return t.a[0] == 0
        if t.op == "case":
            return all(self.bound(x, b) for x in leaves(t))
        if t.op == "len" and t.a[0] is b:
            return True
        ci = self.cell_index(t)
        if ci and self.grows(b)[0]:
            return all(y.op == "len" and y.a[0] is b or y is K(0) for pc, x in self.stored(*ci) for y in [x])
        return False


class Settle:
    """decides what is asked on the way to a panic from what is known to hold"""

    def __init__(self, cells, contract=None):
        self.C = cells
        self.contract = contract
        self.why = {}
        self.reasons = set()
        self.sure = {}                    # what is asked -> the answer that is known, for what stored indices point to
        self.broken = {}                  # key asked for -> how it comes to be missing

    def pointed(self, t):
        """t is an element of a list at a stored index: (list, elements at it) """
        if t.op != "index":
            return None
        b, i = t.a
        base, o = offset(i)
        ci = self.C.cell_index(base)
        if ci is None:
            return None
        n, els, why, known = self.C.points(b, *ci)
        if not known:
            self.why[t] = (ci, why)
            return None
        return [(pc, e[o] if len(e) > o else None) for pc, e in els]

    def known(self, s, pc):
        C = self.C
        if s.op == "has":
            m, k = s.a
            r = C.root(m)
            if r in C.c:
                keeps, why = C.keeps(r)
                f = forced(pc)
                if keeps:
                    for o in C.maps_within(r):
                        q = mk("has", o, k)
                        if f.get(q) == 1 or AND(pc, NOT(m_has(o, k))) is FALSE:
                            self.reasons.add("keys of %s are keys of %s" % (name_of(o), name_of(r)))
                            return 1
                    if m is not r and (f.get(mk("has", r, k)) == 1 or any(f.get(mk("has", x, k)) == 1 for x in C.family(r))):
                        self.reasons.add("%s keeps its keys" % name_of(r))
                        return 1
                    c, base = chain(k)
                    p = self.pointed(base)
                    if p and all(e is not None for _, e in p):
                        good = True
                        for pc2, e in p:
                            src = proj(e, c)
                            h = simp(m_has(simp(C.c[r][1], pc2), src), pc2)
                            ok_ = h is TRUE or AND(pc2, NOT(h)) is FALSE
                            if not ok_:
                                pc3 = pc2
                                for a in atoms(h):
                                    v = self.known(a, pc2) if a is not s else None
                                    if v is not None:
                                        h = restrict(h, a, v)
                                ok_ = h is TRUE or AND(pc3, NOT(h)) is FALSE
                            good = good and ok_
                            if not ok_ and s not in self.broken:
                                if unknown_key(AND(pc3, NOT(h)), set(atoms(h)), src):
                                    self.broken[s] = "%s is stored without its being known in %s" % (sh(src, 60), name_of(r))
                        if good:
                            self.reasons.add("the key was in %s when it was stored" % name_of(r))
                            return 1
                elif why:
                    self.why[s] = (r, why)
            return None
        if s.op == "lt":
            a, b = s.a
            if a.op == "sub" and a.a[0] is b and a.a[1].op == "k" and a.a[1].a[0] > 0:
                return 1
            if a.op == "add" and b in a.a and any(x.op == "neg" or x.op == "k" and x.a[0] < 0 for x in a.a):
                return 1
            if b.op == "len":
                base, o = offset(a)
                if base.op == "idx" and o == 0:
                    return 1
                ci = C.cell_index(base)
                if ci and b.a[0] in C.c:
                    n, els, why, known = C.points(b.a[0], *ci)
                    if known and n > o:
                        self.reasons.add("indices stored in %s stay within the list" % name_of(ci[0]))
                        return 1
                    if known:
                        self.why[s] = (ci, "only %d elements are added when the index is stored" % n)
                    else:
                        self.why[s] = (ci, why)
            if self.contract:
                v = self.contract.known(s, pc)
                if v is not None:
                    self.reasons.add("indices in booking errors are those of the directives that were booked and of their postings")
                    return v
            return None
        if s.op == "discr":
            x = s.a[1]
            c, base = chain(x)
            if is_write(x):
                self.reasons.add("output can be written")
                return "Ok"
            p = self.pointed(base)
            if p:
                vs = set()
                for pc2, e in p:
                    v = proj(e, c) if e is not None else None
                    for l in (leaves(v) if v is not None else [None]):
                        vs.add(l.a[1] if l is not None and l.op == "adt" else None)
                if len(vs) == 1 and None not in vs:
                    self.reasons.add("what a stored index points to is of the kind that was added when it was stored")
                    self.sure[s] = list(vs)[0]
                    return vs.pop()
                self.why[s] = (base, "it may point to %s" % "/".join(sorted(str(v) for v in vs)))
            return None
        if s.op == "any" and len(s.a) > 2:
            if self.run(s.a[2]) is FALSE:
                return 0
            return None
        if s.op == "pred" and s.a[0] == "range_within":
            v, r = s.a[1], s.a[2]
            ok_ = True
            for l in leaves(simp(r, pc)):
                if l.op != "range" or len(l.a) < 2:
                    ok_ = False
                    continue
                lo, hi = l.a[0], l.a[1]
                if not (hi.op == "len" and hi.a[0] is v and (C.bound(lo, v) or lo is hi) or lo is K(0) and C.bound(hi, v)):
                    ok_ = False
                    self.why[s] = (r, "%s..%s is not known to lie within the list" % (sh(lo, 50), sh(hi, 50)))
            if ok_:
                self.reasons.add("both ends of the range lie within the list")
                return 1
        return None

    def run(self, pc):
        """what remains of the condition"""
        for _ in range(4):
            before = pc
            for s in atoms(pc):
                v = self.known(s, pc)
                if v is None:
                    continue
                pc = AND(restrict(pc, s, v), eqlabel(s, v)) if s.op != "pred" else restrict(pc, s, v)
                if pc is FALSE:
                    return FALSE
            pc = rewrite(pc, element_of)
            if pc is FALSE or pc is before:
                return pc
        return pc


def name_of(lv):
    return str(lv.a[2]).split(".")[-1].strip("'") if lv.op == "lv" and len(lv.a) > 2 else sh(lv, 40)


def element_of(t):
    """an element of a list made element by element from another"""
    if t.op == "index" and t.a[0].op == "comp":
        l, src, body = t.a[0].a[:3]
        if body.op == "seq" and len(body.a) == 1:
            return subst(body.a[0], {mk("elem", l, src): index(src, t.a[1]), mk("idx", l): t.a[1]})
    return t


def is_write(x):
    """the result of writing, or of turning an answer into text"""
    ls = leaves(x)
    r = False
    for l in ls:
        if l.op == "adt" and l.a[1] == "Ok":
            continue
        c, base = chain(l)
        if l.op == "adt" and l.a[1] == "Err":
            c, base = chain(adt_field(l, l.a[2][0]))
            if base.op == "adt" or base.op == "call" and "Error" in str(base.a[0]):
                inner = [y for y in subterms(base) if y.op == "call" and re.search(r"io_result|to_string|to_writer|write", str(y.a[0]))]
                if not inner:
                    return False
                r = True
                continue
        if base.op == "io_result" or base.op == "call" and re.search(r"(^io_result|serde_json::to_(string|writer)|Write::(write|flush)|write_report|Write::write_fmt)", str(base.a[0])):
            r = True
            continue
        return False
    return r


class BookContract:
    """the directives and postings to which booking errors refer"""

    def __init__(self, B, r):
        self.ok = True
        self.why = None
        adts = set()
        seen = set()
        for st, v in B.outs:
            for y in subterms(v, seen):
                if y.op == "adt" and y.a[0].endswith("ElementIdx"):
                    adts.add(y)
        for l in B.I.loops:
            for lv, init, nx in l.W.values():
                for y in subterms(nx, seen):
                    if y.op == "adt" and y.a[0].endswith("ElementIdx"):
                        adts.add(y)
        self.n = len(adts)
        srcs = {l.level: l.src for l in B.I.loops if l.level == 0 and l.src is not None}
        for y in adts:
            for d in leaves(adt_field(y, "directive")):
                c, base = chain(d)
                if d.op == "idx" and d.a[0] == 0:
                    continue
                if c and c[-1][1] in ("directive",):
                    continue
                self.ok = False
                self.why = (y, "an error refers to directive number %s" % sh(d, 60), d.op in ("add", "len", "k"))
            for p in leaves(adt_field(y, "posting")):
                if p.op == "adt" and p.a[1] == "None":
                    continue
                i = adt_field(p, "0") if p.op == "adt" and p.a[2] else p
                src = None
                for l in leaves(i):
                    if l.op in ("firstidx",):
                        src = l.a[1]
                    elif l.op == "idx":
                        src = next((x.src for x in B.I.loops if x.level == l.a[0] and x.src is not None and is_postings(x.src)), None)
                    elif l.op == "k" and l.a[0] == 0:
                        continue
                    else:
                        c, base = chain(l)
                        if c and any(n == "posting" for _, n in c):
                            continue
                        src = None
                    if src is None or not is_postings(src):
                        self.ok = False
                        self.why = (y, "an error refers to posting number %s" % sh(l, 60), l.op in ("add", "len", "k"))

    def known(self, s, pc):
        if not self.ok:
            return None
        a, b = s.a
        c, base = chain(a)
        if not c or base.op != "elem":
            return None
        D = booked_list(a)
        if D is None:
            return None
        if c[-1][1] == "directive" or c[-2:] == (("", "directive"),):
            ds = {length(x) for x in leaves(D)} | {simp(length(D), pc)}
            if b in ds:
                return 1
        if any(n == "posting" for _, n in c):
            if b.op == "len":
                c2, b2 = chain(b.a[0])
                if [n for _, n in c2][-1:] == ["postings"] and b2.op == "index":
                    dc, db = chain(b2.a[1])
                    k = max(i for i, (_, n) in enumerate(c) if n == "posting")
                    if db is base and dc[:k] == c[:k] and dc[-1][1] == "directive" and len(dc) == k + 1:
                        return 1
        return None


def is_postings(src):
    """does a loop over this have at most as many iterations as the directive has postings"""
    if src.op == "zip":
        return any(is_postings(x) for x in src.a)
    if src.op in ("enumerate", "unord", "rev"):
        return is_postings(src.a[0])
    if src.op == "comp":
        return one_to_one(src.a[2]) and is_postings(src.a[1])
    c, base = chain(src)
    if c and c[-1][1] == "interpolated_postings" and base.op == "call" and str(base.a[0]).endswith("limabean_booking::book"):
        return is_postings(base.a[2])
    return bool(c) and c[-1][1] == "postings" and base.op == "elem" and base.a[0] == 0


def booked_list(t):
    """the list of directives whose booking gave the error of which this is a part"""
    while True:
        c, base = chain(t)
        if base.op == "elem":
            t = base.a[1]
            continue
        if base.op == "call" and str(base.a[0]).endswith("booking::book"):
            return base.a[1]
        return None


PLAIN = {"discr", "eq", "has", "isempty", "lt", "contains", "any", "more", "isfirst", "pred"}
SURE_CALL = re.compile(r"(to_string|to_value|to_vec|to_writer|fmt::Write|TryFrom|TryInto|try_from|try_into|NonZero|lock|Regex::new|current_dir)")


def subjects(s):
    """the terms an atom says something about"""
    out, todo = set(), [x for x in s.a if x.__class__ is T] if s.op in PLAIN else [s]
    while todo:
        x = todo.pop()
        out.add(x)
        if x.op in ("call", "first", "last", "len", "firstidx", "nth", "rev", "slice", "unord", "toset", "tomap"):
            todo += [y for y in x.a if y.__class__ is T and y.op not in ("k", "str")]
    return {x for x in out if x.op not in ("k", "str", "ty")}


def has_input(t):
    return any(y.op in ("elem", "param", "lv", "bv") for y in subterms(t))


def ways(pc, limit=400):
    """the ways in which a condition comes true, as lists of (what is asked, answer)"""
    out = []

    def go(t, path):
        if len(out) >= limit:
            return
        if t is FALSE or t is BOT or t.op == "bot":
            return
        if t.op == "case":
            s, it, d = case_items(t)
            for l, v in it.items():
                go(v, path + [(s, l)])
            if d is not None:
                go(d, path + [(s, None)])
        elif t is TRUE or t.op == "k" and t.a[0]:
            out.append(path)
        elif t.op != "k":
            out.append(path + [(t, 1)])
    go(pc, [])
    return out


def free(s, bad=False):
    """can input make this come out either way"""
    if s.op in ("more", "isfirst"):
        return not bad
    if s.op not in PLAIN and not is_bool_atom(s) and s.op != "fld":
        return has_input(s)
    if not has_input(s) and not any(y.op == "call" for y in subterms(s)):
        return False
    if bad and s.op == "discr":
        c, base = chain(s.a[1])
        if base.op == "call":
            return not SURE_CALL.search(str(base.a[0])) and has_input(base)
        return base.op in ("elem", "param", "call", "mval", "index") and (bool(c) or base.op != "elem")
    if bad and s.op == "lt":
        return s.a[0].op == "k" and s.a[1].op == "len" or s.a[1].op == "k" and s.a[0].op == "len"
    if bad and s.op == "pred" and s.a[0] in ("str_is_empty", "starts_with", "ends_with", "str_contains"):
        c, base = chain(s.a[1])
        return bool(c) and base.op in ("elem", "param", "call")
    if bad and s.op == "any" and len(s.a) > 2:
        return any(y.op in ("elem", "param", "lv", "bv", "call") for y in subterms(s.a[1])) and any(all(free(x, True) for x, _ in w) for w in ways(s.a[2]))
    if bad and s.op in ("pred", "any", "more", "isfirst"):
        return False
    return True


def witness(pc, badset):
    """a way to the panic on which everything asked can be answered freely by input"""
    for w in ways(pc):
        bad = [a for a in w if a[0] in badset] or w[-1:]
        good = True
        for s, l in w:
            if not free(s, (s, l) in bad):
                good = False
                break
        if not good:
            continue
        bs = set().union(*[subjects(s) for s, _ in bad]) if bad else set()
        bs = {x for x in bs if x.op not in ("elem",)}
        for s, l in w:
            if (s, l) in bad:
                continue
            for x in subjects(s):
                if x in bs:
                    good = False
        if good:
            return w
    return None


def unknown_key(pc, hs, key):
    """nothing on some way says anything about the key but that it is not there"""
    for w in ways(pc):
        if all(free(s) and (s in hs or key not in subjects(s)) for s, l in w):
            return True
    return False


def at_start(pc, cells):
    m = {lv: init for lv, (init, nx, l) in cells.c.items() if l.level == 0}
    for lv, (init, nx, l) in cells.c.items():
        if l.level > 0:
            m[lv] = subst(init, m)
    return subst(pc, m)


def judge_panic(p, label, C, contract, r):
    kind, site, pc = p["kind"], p["site"], p["pc"]
    key = "%s:%s" % (kind, site[0])
    r.count("obligations")
    if kind.startswith("Overflow"):
        ops = p["info"]
        if kind in ("OverflowAdd", "OverflowMul") and all(size(x, C) for x in ops):
            r.count("sums of sizes and indices")
            return
    S = Settle(C, contract)
    rest = S.run(pc) if kind != "index_range" else S.run(AND(pc, NOT(p["good"])))
    if kind == "OverflowSub":
        a, b = p["info"]
        if a is b or b is K(0):
            return
        if a.op == "len" and b is K(1):
            rest = AND(rest, isempty(a.a[0]))
            if a.a[0] in C.c:
                rest = at_start(rest, C)
        else:
            r.undecide("%s: %s - %s may be negative" % (site[0], sh(a, 40), sh(b, 40)))
            return
    if rest is FALSE:
        why = sorted(S.reasons)
        r.count("impossible")
        r.sample({"at": "%s:%s" % (site[1], site[2]), "kind": kind, "impossible since": "; ".join(why)[:200] or "the conditions exclude each other"})
        return
    what = {"unwrap": "unwraps what may be missing", "expect": "expects what may be missing", "panic": "panics", "BoundsCheck": "indexes beyond a list", "index": "indexes beyond a list or without the key",
            "index_range": "takes a range that may not lie within the list", "DivisionByZero": "divides by zero"}.get(kind, "may fail (%s)" % kind)
    # what was stored is not what is looked up
    asked = set(atoms(NOT(p["good"]))) if p.get("good") is not None else None
    for s, (place, why) in S.why.items():
        if s in atoms(rest) and why and (s in asked if asked is not None else s.op != "has") and ("elements are added" in why or "may point to" in why or "entry is removed" in why):
            r.violate(key, "%s %s: %s" % (site[0], what, why), where(site))
            return
    good = p.get("good")
    bads = set(atoms(simp(NOT(good), p["path"]))) if good is not None else set()
    if len(bads) == 1:
        s = list(bads)[0]
        if s in S.sure and restrict(NOT(good), s, S.sure[s]) is not FALSE:
            r.violate(key, "%s %s: the stored index points to a %s" % (site[0], what, S.sure[s]), where(site))
            return
    for s in bads:
        if s in S.broken:
            r.violate(key, "%s %s: %s" % (site[0], what, S.broken[s]), where(site))
            return
    bads = set(atoms(simp(NOT(good), p["path"]))) if good is not None else set()
    first = at_start(rest, C)
    if first is not FALSE:
        T2 = Settle(C, contract)
        first = T2.run(first)
    if first is not FALSE and kind != "index_range":
        fb = set()
        if good is not None:
            fb = set(atoms(at_start(NOT(good), C)))
        w = witness(first, fb)
        if w is not None:
            r.violate(key, "%s %s when %s" % (site[0], what, " and ".join("%s%s" % (sh(s, 60), "" if l == 1 else " is %s" % l) for s, l in w[-3:]) or "the first directive is processed"), where(site))
            return
    r.undecide("%s:%s: %s %s (not shown impossible: %s)" % (site[1], site[2], site[0], what, "; ".join(sh(s, 80) for s in atoms(rest)[-3:])))


def size(x, C):
    """a count or an index, bounded by memory"""
    if x.op == "k":
        return isinstance(x.a[0], int) and abs(x.a[0]) < 2 ** 32
    if x.op in ("len", "idx", "firstidx"):
        return True
    if x.op == "add":
        return all(size(y, C) for y in x.a)
    if x.op == "case":
        return all(size(y, C) for y in leaves(x))
    ci = C.cell_index(x)
    if ci:
        vs = C.stored(*ci)
        return bool(vs) and all(size(v, C) for _, v in vs)
    if x.op == "lv" and x in C.c:
        return True
    return False


def methods(ctx, C, r):
    """only methods that the booking library supports reach it"""
    B = ctx.B
    todo, done = [], set()
    for l in B.I.loops:
        for lv, init, nx in l.W.values():
            todo += [nx]
    todo += [v for st, v in B.outs]
    found = set()
    seen = set()
    for t in todo:
        for y in subterms(t, seen):
            if y.op == "call" and str(y.a[0]).endswith("limabean_booking::book") and len(y.a) > 5:
                found.add((y.a[5], "the booking library"))
            elif y.op == "after" and "accumulate" in str(y.a[0]) and len(y.a) > 3:
                for a in y.a[3:]:
                    if a.__class__ is T and bookingish(a):
                        found.add((a, "Positions::accumulate"))
    if not found:
        raise facts.CannotDecide("C05: the call of the booking library was not found")
    for m, name in found:
        body = m.a[2] if m.op == "lam" else m
        r.count("uses of a booking method")
        stack = [(body, TRUE)]
        seenm = set()
        while stack:
            t, pc0 = stack.pop()
            if (t, pc0) in seenm:
                continue
            seenm.add((t, pc0))
            for pc, x in branches(t, pc0):
                if x.op == "call" and str(x.a[0]) == "default" or x.op == "adt" and x.a[1] != "Average":
                    continue
                if x.op == "adt":
                    r.violate("method", "method %s, which it does not support, reaches %s" % (x.a[1], name), None)
                    continue
                ok_ = AND(pc, NOT(call("limabean_booking::is_supported_method", x))) is FALSE or any(
                    s.op == "call" and "is_supported_method" in str(s.a[0]) and simp(s.a[1], pc) is x and AND(pc, NOT(s)) is FALSE for s in atoms(pc))
                if ok_:
                    continue
                c, base = chain(x)
                if base.op == "mval" and C.root(base.a[0]) in C.c:
                    for pc2, v in C.stored(C.root(base.a[0]), c):
                        stack.append((v, pc2))
                    continue
                if base.op in ("elem", "call", "param"):
                    r.violate("method", "a booking method that is not supported can reach %s, which panics: %s" % (name, sh(x, 90)), None)
                else:
                    r.undecide("the booking method %s" % sh(x, 90))


def bookingish(a):
    return a.op == "call" and str(a.a[0]) == "default" and "Booking" in str(a.a[1:]) or a.op == "adt" and a.a[0].endswith("::Booking") or a.op == "fld" and a.a[1] == "booking"


def scales(ctx, r):
    """Decimal::new panics beyond 28 decimal places"""
    seen = set()
    for t in [nx for l in ctx.B.I.loops for lv, init, nx in l.W.values()] + [v for st, v in ctx.B.outs]:
        for y in subterms(t, seen):
            if y.op == "call" and str(y.a[0]) == "Decimal::new" and len(y.a) > 2:
                r.count("constructed decimals")
                for x in leaves(y.a[2]):
                    if x.op == "k" and isinstance(x.a[0], int):
                        if x.a[0] > 28:
                            r.violate("scale", "a decimal with %d places is made" % x.a[0], None)
                    elif x.op == "call" and str(x.a[0]).endswith("Decimal::scale"):
                        pass
                    elif x.op == "add" and any(z.op == "call" and str(z.a[0]).endswith("Decimal::scale") for z in x.a) and any(z.op == "k" and z.a[0] > 0 for z in x.a):
                        r.violate("scale", "a decimal is made with more places than the amount, of which it may have 28 already", None)
                    else:
                        r.undecide("a decimal with %s places is made" % sh(x, 60))


def C05(ctx, r):
    r.explain = ("Every place in the functions that can run while serving at which the program would end - indexing, unwrapping, explicit panics, arithmetic checks, process exits - is "
                 "followed to the condition under which it is reached and fails, over all requests and all states of the booking run. Each must be impossible: since the conditions exclude "
                 "each other, or by what is shown to hold of the booking state by induction over the directives (keys of the open accounts are keys of the accounts, indices stored for "
                 "pads and balance windows point to the entries added with them, errors refer to existing directives and postings), or because output could not be written, which is excluded.")
    S_, B = ctx.S, ctx.B
    from rules.tools_rules import reachable
    seen, ext = reachable(ctx.prog, S_.root)
    r.count("functions", len(seen))
    CB, CS = Cells(B.I), Cells(S_.I)
    contract = BookContract(B, r)
    if not contract.ok:
        y, why, sure = contract.why
        if sure:
            r.violate("element", why, None)
        else:
            r.undecide(why)
    for p in B.I.panics:
        judge_panic(p, "booking", CB, None, r)
    for p in S_.I.panics:
        judge_panic(p, "serving", CS, contract, r)
    from rules.server_rules import exit_reason
    for label, X, sv in (("serving", S_.I, S_), ("booking", B.I, None)):
        for x in X.exits:
            r.count("process exits")
            if sv is None or exit_reason(sv, x["state"].pc) not in ("eof", "error"):
                r.violate("exit:%s" % x["site"][0], "%s ends the process while requests are being served" % x["site"][0], where(x["site"]))
    methods(ctx, CB, r)
    scales(ctx, r)
    # ---- places that no path was found to
    visited = B.I.visited | S_.I.visited
    ran = {b for b, _ in visited}
    for b in seen.values():
        for bi, blk in enumerate(b["blocks"]):
            t = blk["t"]
            if not t or t[0] not in ("assert", "call"):
                continue
            if t[0] == "assert":
                if any(x in str(t[3]) for x in DEBUG_ASSERT):
                    continue
                n = str(t[3])
            else:
                n = None
            if n is None:
                continue
            r.count("places that may end the program")
            if (b["path"], bi) not in visited and b["path"] not in ran:
                r.undecide("%s may fail (%s) and was not followed" % (b["path"], n))
        for blk, f, t in calls(b):
            bi = b["blocks"].index(blk)
            n = f["path"]
            if not (DIVERGE.search(n) or PARTIAL.search(n)) or "tracing" in str(t[-1]):
                continue
            r.count("places that may end the program")
            if (b["path"], bi) not in visited and b["path"] not in ran:
                r.undecide("%s calls %s and was not followed" % (b["path"], n))
    r.floor("places that may end the program", 25, "places that may end the program")
    r.floor("obligations", 20, "obligations")
