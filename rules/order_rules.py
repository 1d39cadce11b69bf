"""C28: responses do not depend on the iteration order of hash tables, nor on clock, addresses or random state."""
import re
from engine import interp as EI
from engine.terms import *
from engine.interp import HASH_ITER
from lb.ctx import where
from lb.judge import sh
from lb import facts

HASHY = re.compile(r"\b(hash_map::|hash_set::|HashMap\b|HashSet\b|hashbrown::)")
# members of responses that are sets or maps, in whatever order
SETS = {"tags", "links", "metadata", "key-values", "currencies", "documents", "operating-currency", "options", "inferred-tolerance-default"}
# the elements of a sequence are all that matters
WHOLE = {"toset", "tomap", "sum", "any", "isempty", "len", "count", "contains", "has", "sconcat", "srem", "mrem", "mval", "discr", "eq", "mins"}
PASS = {"rev", "slice", "skip", "take", "step_by", "zip", "dup", "enumerate", "flatten"}
CHOICE = {"first", "firstidx", "nth", "last"}
CLOCK = re.compile(r"(time::(Instant|SystemTime)::now|::now_utc$|::now_local$|Utc::now|Local::now|OffsetDateTime::now|thread::current|thread::id|ThreadId|process::id$|"
                   r"rand::|getrandom|fastrand|RandomState::(new|hash_one|build_hasher)|BuildHasher::(hash_one|build_hasher)|env::(var|vars|args|var_os|temp_dir)|Uuid::new|"
                   r"Argument::<'_>::new_pointer|available_parallelism|fs::read_dir|Metadata::(modified|created|accessed))")
SPAWN = re.compile(r"thread::(spawn|scope|Builder)|rayon|par_iter|mpsc::|tokio::(spawn|task)")


class Order:
    def __init__(self, r, srcs, label):
        self.r, self.label = r, label
        self.srcs = srcs            # sources of loops that iterate hash tables by their type
        self.read = None            # members of a booking result that are answered
        self.memo = {}
        self.cells = set()          # loop cells that collect in hash order
        self.seen = set()
        self.seeng = set()
        self.world = []             # terms in which to look up what was stored

    # -- which sequences are in hash order ---------------------------------------------------------
    def U(self, t):
        k = t
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        v = self._U(t)
        self.memo[k] = v
        return v

    def _U(self, t):
        o = t.op
        if o == "unord" or t in self.srcs:
            return True
        if o == "case":
            return any(self.U(l) for l in leaves(t))
        if o == "comp":
            return self.U(t.a[1]) or any(self.U(l) for l in leaves(t.a[2]) if l.op != "seq")
        if o == "cat":
            return any(self.U(x) for x in t.a)
        if o in PASS:
            return self.U(t.a[0])
        if o == "sorted":
            if not self.U(t.a[1]):
                return False
            return self.unique(t) is False
        if o == "lv":
            return t in self.cells
        if o == "loopout":
            l, src, init, lv, nx = t.a[:5]
            ap = [x for x in leaves(nx) if x.op == "cat" and x.a[0] is lv]
            if self.U(init) or self.U(src) and ap or any(self.U(y) for x in ap for y in x.a[1:]):
                self.cells.add(lv)
                return True
            return False
        return False

    # -- sorting -----------------------------------------------------------------------------------
    def unique(self, t):
        """does a sort give elements in hash order an order that does not depend on it; None if that is not known"""
        kind, q, key = t.a
        if kind in ("set", "map"):
            return True
        if key is UNIT:
            return True
        if key.op != "lam":
            self.r.undecide("%s: the order that %s gives is not known" % (self.label, sh(t)))
            return None
        qs = [x for x in leaves(q)]
        verdict = True
        for x in qs:
            if not self.U(x):
                continue
            items = self.items(x)
            if items is None:
                self.r.undecide("%s: what %s sorts is not known" % (self.label, sh(t)))
                return None
            for it, base in items:
                v = self.key_unique(key, it, base)
                if v is None:
                    self.r.undecide("%s: whether %s orders all elements is not known" % (self.label, sh(key)))
                    return None
                verdict = verdict and v
        return verdict

    def items(self, x):
        """[(item, the hash table source whose element it is made from)]"""
        if x.op == "unord" or x in self.srcs:
            return [(mk("elem", 999999, x), x)]
        if x.op == "comp":
            out = []
            for l in leaves(x.a[2]):
                if l.op != "seq":
                    return None
                out += [(y, x.a[1]) for y in l.a]
            return out
        if x.op in PASS and x.a[0] is not x:
            return self.items(x.a[0])
        if x.op == "loopout":
            l, src, init, lv, nx = x.a[:5]
            out = []
            for y in leaves(nx):
                if y is lv:
                    continue
                if y.op == "cat" and y.a[0] is lv and all(z.op == "seq" for z in y.a[1:]):
                    out += [(w, src) for z in y.a[1:] for w in z.a]
                else:
                    return None
            return out
        return None

    def key_unique(self, lam, item, base):
        lvl, n, body = lam.a[0], lam.a[1], lam.a[2]
        chains = []
        whole = []

        def walk(t):
            if t.op == "fld":
                c, b = [], t
                while b.op == "fld":
                    c.append((b.a[0], b.a[1]))
                    b = b.a[2]
                if b.op == "bv" and b.a[0] == lvl:
                    chains.append(t)
                    return
            if t.op == "bv" and t.a[0] == lvl:
                whole.append(t)
                return
            for k in t.kids:
                walk(k)
        walk(body)
        m = {mk("bv", lvl, i): item for i in range(n)}
        if whole:
            if all(y.op in ("bv", "call", "eq", "cmp", "fld", "rev") for y in subterms(body)):
                return True
            return None
        if not chains:
            return False                       # a constant
        vs = [self.value_unique(subst(c, m), base) for c in chains]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
        return None

    def value_unique(self, v, base):
        """do different elements of a hash table have different v"""
        if v.op in ("str", "k", "unit"):
            return False
        if v.op == "idx" or v.op == "len" and v.a[0].op == "lv":
            return True
        c, b = [], v
        while b.op == "fld":
            c.append((b.a[0], b.a[1]))
            b = b.a[2]
        c.reverse()
        if b.op == "elem" and (b.a[1] is base or True):
            if not c:
                return True                    # the element itself
            if c[0][1] == "0" and len(c) == 1:
                return True                    # the key of a map
            if c[0][1] == "1":
                c = c[1:]
            if not c:
                return None
            found = set()
            for w in self.world:
                for y in subterms(w):
                    if y.op == "adt" and c[0][1] in y.a[2] and y.a[2]:
                        f = adt_field(y, c[0][1])
                        x = f
                        for va, na in c[1:]:
                            if x.op == "case":
                                x = dist(x, lambda l: fld(va, na, l) if l.op in ("adt", "tup") else BOT)
                            else:
                                x = fld(va, na, x) if x.op in ("adt", "tup") else BOT
                        for l in leaves(x):
                            if l is not BOT and l.op != "bot":
                                found.add(l)
                    elif y.op == "with" and c[0][1] in y.a[1::2]:
                        x = y.a[list(y.a).index(c[0][1]) + 1]
                        for va, na in c[1:]:
                            x = fld(va, na, x) if x.op in ("adt", "tup", "case") else BOT
                        for l in leaves(x):
                            if l is not BOT and l.op != "bot":
                                found.add(l)
            if not found:
                return None
            # the index of the directive, or of its result in the list to which every directive adds
            if all(l.op == "idx" or l.op == "len" and l.a[0].op == "lv" for l in found):
                return True
            if any(l.op in ("str", "k") for l in found):
                return False
            if all(l.op == "fld" and l.a[1] in ("date", "acc", "flag", "narration", "payee") for l in found):
                # values of directives, which can be equal
                return False
            if not any(y.op == "idx" for l in found for y in subterms(l)):
                return None
        return None

    # -- where they go -----------------------------------------------------------------------------
    def bad(self, what, t, key):
        self.r.violate("order:%s:%s:%s" % (self.label, key, what), "%s: %s has the order of a hash table (%s)" % (self.label, what, sh(t)), None)

    def value(self, t, name="the result"):
        """t is part of what is answered"""
        key = (t, name)
        if key in self.seen:
            return
        self.seen.add(key)
        o = t.op
        if o == "case":
            self.guard(t.a[0])
            for l in t.kids[1:]:
                self.value(l, name)
            return
        if self.U(t):
            if name in SETS:
                self.r.count("sets and maps answered in any order")
            else:
                self.bad("the list %s" % name, t, name)
            return
        if o == "obj":
            for k, v in zip(t.a[0], t.a[1:]):
                self.value(v, k if k != "+" else name)
        elif o == "adt":
            for n in t.a[2]:
                if self.read is None or n in self.read or not t.a[0].endswith("BookingSuccess"):
                    self.value(adt_field(t, n), n)
        elif o in ("tup", "seq", "cat"):
            for x in t.a:
                self.value(x, name)
        elif o == "comp":
            self.r.count("ordered lists")
            self.guard(t.a[1])
            self.value(t.a[2], name)
        elif o == "loopout":
            self.r.count("ordered lists")
            self.guard(t)
            self.value(t.a[2], name)
            for l in leaves(t.a[4]):
                if l.op == "cat" and l.a[0] is t.a[3]:
                    for x in l.a[1:]:
                        self.value(x, name)
        elif o in ("fmt", "disp", "text"):
            self.text(t, name)
        else:
            self.guard(t)

    def text(self, t, name):
        for k in t.kids:
            if self.U(k) or k.op in ("toset", "tomap"):
                self.bad("the text of %s" % name, t, name)
            elif k.op in ("fmt", "disp", "text"):
                self.text(k, name)
            else:
                self.value(k, "the text of %s" % name if not name.startswith("the text") else name)

    def pinned(self, cond, lvl, src):
        """does a condition on an element of a hash table single one out"""
        el = mk("elem", lvl, src)
        for s in subterms(cond):
            if s.op == "eq" and any(y is el for y in subterms(s)):
                a, b = s.a[:2]
                ina, inb = any(y is el for y in subterms(a)), any(y is el for y in subterms(b))
                if ina != inb and restrict(cond, s, 0) in (FALSE, BOT):
                    return True
            if s.op == "discr" and any(y is el for y in subterms(s.a[1])):
                # the variant of a key that has nothing else to it
                if s.a[1].op == "fld" and s.a[1].a[1] == "0" and s.a[1].a[2] is el or s.a[1] is el:
                    on = [l for l in UNIV.get(s.a[0], ()) if restrict(cond, s, l) not in (FALSE, BOT, EMPTYSEQ)]
                    if on and not any(y.op == "fld" and y.a[0] == l for l in on for y in subterms(restrict(cond, s, l)) if y.op == "fld" and y.a[2] is s.a[1]):
                        if s.a[0] not in (OPT, RES) or on == ["None"]:
                            return True
        return False

    def guard(self, t):
        """t is computed on the way to an answer: no element may be singled out by its place"""
        if t in self.seeng:
            return
        self.seeng.add(t)
        o = t.op
        if o in ("first", "firstidx"):
            l, src, cond = t.a[:3]
            if self.U(src):
                self.r.count("choices among elements of hash tables")
                if src.op == "fld" and src.a[1] == "updated_inventory" and all(
                        x.op != "fld" or x.a[1] != "1" for x in subterms(cond) if x.op == "fld" and x.a[2] is mk("elem", l, src)):
                    # an account that is not open among those that the library updates: these are accounts of postings, which are open
                    self.r.count("choices that cannot arise")
                elif not self.pinned(cond, l, src):
                    self.bad("the choice of an element", t, "choice")
        elif o == "last" and len(t.a) == 2 and self.U(t.a[1]):
            q = t.a[1]
            self.r.count("choices among elements of hash tables")
            if not (q.op == "comp" and self.pinned(q.a[2], q.a[0], q.a[1])):
                self.bad("the choice of the last element", t, "choice")
        elif o in ("fmt", "disp", "text"):
            self.text(t, "a message")
            return
        elif o == "call":
            us = [x for x in t.a[1:] if x.__class__ is T and self.U(x)]
            n = t.a[0].split("::")[-1]
            if us and n in ("min_by_key", "max_by_key") and len(t.a) == 3 and t.a[2].op == "lam" and self.unique(mk("sorted", n, t.a[1], t.a[2])):
                us = []
            if us:
                if n in ("last", "nth", "first", "next", "concat", "join", "get", "pop", "position", "find", "min_by_key", "max_by_key", "min_by", "max_by", "index"):
                    self.bad("the result of %s" % n, t, "call:" + n)
                elif n not in ("len", "count", "sum", "min", "max", "is_empty", "contains", "capacity", "eq", "ne"):
                    self.r.undecide("%s: %s is given elements in the order of a hash table" % (self.label, n))
        elif o == "loopout":
            self.loop(*t.a[:5])
        elif o in ("index", "nth") and self.U(t.a[0]):
            self.bad("the element at a position", t, "index")
        for k in t.kids:
            if k.op not in ("elem", "lv", "idx", "more", "bv"):
                self.guard(k)

    def loop(self, l, src, init, lv, nx):
        if not self.U(src):
            return
        self.r.count("loops over hash tables")
        el = mk("elem", l, src)
        self.step(l, src, lv, el, nx, [])

    def step(self, l, src, lv, el, t, conds):
        if t.op == "case":
            s, its, d = case_items(t)
            for k, v in its.items():
                self.step(l, src, lv, el, v, conds + [(s, k)])
            if d is not None:
                self.step(l, src, lv, el, d, conds + [(s, None)])
            return
        if t is lv or t is BOT or t.op == "bot":
            return
        self.r.count("updates in loops over hash tables")
        haslv = any(y is lv for y in subterms(t))
        hasel = any(y.op == "elem" and y.a[0] == l for y in subterms(t))
        if t.op == "cat" and t.a[0] is lv:
            return
        if any(s.op == "eq" and k == 1 and any(y is el for y in subterms(s)) for s, k in conds) or \
           any(s.op == "discr" and s.a[0] not in (OPT, RES) and any(y is el for y in subterms(s)) for s, k in conds):
            return                    # only one element, or only elements with the same key
        if not haslv:
            if not hasel:
                return
            if any(any(y is lv for y in subterms(s)) and any(y.op == "elem" and y.a[0] == l for y in subterms(s)) for s, k in conds):
                # the smallest or greatest so far
                if all(y.op != "tup" for y in subterms(t)) and any(s.op in ("lt", "le", "gt", "ge", "call") and any(k2 is t for k2 in s.kids) for s, k in conds):
                    return
                self.r.undecide("%s: which element of a hash table is kept in %s is not known" % (self.label, sh(lv)))
                return
            self.bad("what %s is after a loop" % str(lv.a[2]).split(".")[-1], t, "last")
            return
        if t.op in ("add", "mul", "and", "or", "max", "min", "not"):
            return
        if t.op in ("mins", "toset", "tomap", "srem"):
            return
        if not hasel:
            return
        self.r.undecide("%s: %s in a loop over a hash table" % (self.label, sh(t)))


def calls(b):
    for blk in b["blocks"]:
        t = blk["t"]
        if t and t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            yield blk, t[1][1]["fn"], t


MUTABLE = re.compile(r"hash(_map|brown::map|map)::(IterMut|ValuesMut)\b")


def hash_sites(bodies, rx=HASH_ITER):
    """calls that take elements out of hash tables in their order: (body, block index, name, type)"""
    for b in bodies:
        for i, blk in enumerate(b["blocks"]):
            t = blk["t"]
            if not (t and t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]) or blk.get("cleanup"):
                continue
            f = t[1][1]["fn"]
            g = f.get("gargs") or []
            n = f["path"].split("::")[-1]
            if f.get("inst") is not None:
                continue
            if g and rx.search(str(g[0])) and n not in ("drop", "clone", "fmt", "into_iter", "map", "filter", "filter_map", "cloned", "copied", "enumerate", "size_hint", "flatten", "inspect"):
                yield b, i, f, t


def C28(ctx, r):
    r.explain = ("Every sequence that takes its order from a hash table is followed, in the terms of all answers and of the booking run, to where it is used: sets, maps, sums, "
                 "existence tests and sorting by something unique for each element end its dependence on that order; a list, a text or a choice of an element in an answer "
                 "must not depend on it. Loops over hash tables may only update what they write by insertions, sums, constants or under a test that singles out one key. The "
                 "functions that the booking library runs are looked at by their iterations over hash tables, which may neither be left early nor be collected into a list "
                 "that is not sorted. Functions that run while serving may not ask clock, random state, addresses, threads or environment.")
    EI.MARK_HASH = True
    S_, B = ctx.S, ctx.B
    from rules.tools_rules import reachable, call_site
    seen, ext = reachable(ctx.prog, S_.root)
    r.count("functions", len(seen))
    r.count("functions called outside the crate", len(ext))
    for n, bs in sorted(ext.items()):
        for b in bs:
            if CLOCK.search(n):
                r.violate("state:%s:%s" % (b["path"], n), "%s calls %s while serving" % (b["path"], n), where(call_site(b, n)))
            elif SPAWN.search(n):
                r.undecide("%s uses %s" % (b["path"], n))
    for b in seen.values():
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "cast" and "PointerExpose" in str(s[2][1]):
                    r.violate("addr:%s" % b["path"], "%s uses an address as a number" % b["path"], where([b["path"]] + s[-1][:2]))
        for _, f, t in calls(b):
            if f["path"].endswith(("::new_debug", "::new_display")) and HASHY.search(str(f.get("gargs"))) :
                if not str(t[-1]).count("tracing"):
                    r.violate("debug:%s" % b["path"], "%s writes a hash table as text" % b["path"], where([b["path"]] + list(t[-1])[:2]))
    # ---- what the type checker knows to be iterations over hash tables
    sites = {}
    bodies = [b for b in ctx.prog.bodies.values() if b["kind"] == "mono"]
    for b, i, f, t in hash_sites(bodies):
        if "Deserialize" in b["path"] or "Serialize" in b["path"]:
            continue
        sites.setdefault((b["path"], t[-1][1]), []).append(f["path"].split("::")[-1])
    r.count("hash table iterations", len(sites))
    for label, I, outs in (("answers", S_.I, None), ("booking", B.I, B.outs)):
        srcs = set()
        for l in I.loops:
            if l.src is not None and l.site and (l.site[0], l.site[2]) in sites and "next" in sites[(l.site[0], l.site[2])]:
                srcs.add(l.src)
        o = Order(r, {s for s in srcs if not any(y.op == "unord" for y in subterms(s)) and s.op != "sorted"}, label)
        if outs is None:
            read = set()
            for a, pc, j, f in ctx.answers():
                if j is not None:
                    read |= {y.a[1] for y in subterms(j) if y.op == "fld"}
                o.world = [j] if j is not None else []
                r.count("answers")
                o.guard(pc)
                if j is not None:
                    o.value(j, "response")
        else:
            o.world = [v for st, v in outs]
            o.read = read                      # what no answer takes from a booking result may have any order
            for _ in range(2):
                o.memo.clear(); o.seen.clear(); o.seeng.clear()
                for st, v in outs:
                    o.guard(st.pc)
                    o.value(v)
            r.count("booking results", len(outs))
    # ---- were all of them seen
    got = S_.I.hash_sites | B.I.hash_sites
    names = {g[0] for g in got if g}
    for (path, line), ns in sorted(sites.items()):
        if path not in names and not any(l.site and l.site[0] == path for l in S_.I.loops + B.I.loops):
            r.undecide("%s: the iteration over a hash table was not followed" % path)
    # iterations that may change the elements are judged by the control flow around them
    for b, i, f, t in hash_sites(bodies, MUTABLE):
        r.count("hash table iterations that change elements")
        for kind, what, sure in judge_site(b, i, f, t, bodies):
            if sure:
                r.violate("mut:%s:%s" % (b["path"], kind), "%s %s" % (b["path"], what), where([b["path"]] + list(t[-1])[:2]))
            else:
                r.undecide("%s %s" % (b["path"], what))
    library(ctx, r)
    r.floor("answers", 8, "answers")
    r.floor("functions", 60, "functions that run while serving")


# ---- the booking library -------------------------------------------------------------------------

def targets(t):
    if not t:
        return []
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if isinstance(t[3], int) else [])
    if k == "call":
        return [t[4]] if isinstance(t[4], int) else []
    if k == "drop":
        return [t[2]] if isinstance(t[2], int) else []
    if k == "assert":
        return [x for x in t[4:] if isinstance(x, int)][:1]
    return []


def reach(g, a):
    out, todo = set(), [a]
    while todo:
        x = todo.pop()
        for y in g[x]:
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def short_site(t):
    f, l = t[-1][0], t[-1][1]
    i = f.find("registry/src/")
    return (f.split("/", 8)[-1] if i < 0 else "/".join(f[i:].split("/")[3:]), l)


def library(ctx, r):
    p = facts.program("lib-deep")
    bodies = [b for b in p.bodies.values() if b["kind"] == "mono" and b["path"].lstrip("<&").startswith(facts.DEEP + "::")]
    r.count("functions of the booking library", len(bodies))
    r.floor("functions of the booking library", 60, "functions of the booking library")
    for b, i, f, t in hash_sites(bodies):
        w = where([b["path"]] + list(short_site(t)))
        r.count("hash table iterations of the booking library")
        for kind, what, sure in judge_site(b, i, f, t, bodies):
            r.violate("library:%s:%s" % (b["path"], kind), "%s %s" % (b["path"], what), w)


def judge_site(b, i, f, t, bodies):
    """what one call that takes elements out of a hash table does with their order: [(kind, text, certain)]"""
    out = []
    n = f["path"].split("::")[-1]
    g = [targets(blk["t"]) for blk in b["blocks"]]
    names = [f2["path"].split("::")[-1] for _, f2, _ in calls(b)]
    if n == "next":
        fwd = reach(g, i)
        if i not in fwd:
            callers = [x for x in bodies if any(f2.get("rpath", f2["path"]) == b["path"] for _, f2, _ in calls(x))]
            if "len" not in names and not (callers and all(any(f2["path"].endswith("::len") for _, f2, _ in calls(x)) for x in callers)):
                out.append(("one", "takes the first element of a hash table", True))
            return out
        loop = {x for x in fwd if i in reach(g, x)}
        inside = [b["blocks"][x]["t"] for x in sorted(loop)]
        inside = [u[1][1]["fn"]["path"] for u in inside if u and u[0] == "call" and u[1][0] == "k" and "fn" in u[1][1]]
        sure = not any(x.split("::")[-1] in ("eq", "ne", "get", "contains", "contains_key") for x in inside)
        for x in sorted(loop):
            for y in g[x]:
                if y in loop or x == t[4]:
                    continue
                u = b["blocks"][y]["t"]
                if u and u[0] == "unreachable":
                    continue
                if not any(k == "early" for k, _, _ in out):
                    out.append(("early", "can leave its loop over a hash table early, with what depends on the elements seen by then", sure))
        if any(re.search(r"(Vec|String|VecDeque)::.*::(push|push_str|push_back|insert|extend)$", x) for x in inside) and not any(m.startswith("sort") for m in names):
            out.append(("push", "appends to a list in the order of a hash table", True))
    elif n in ("collect", "from_iter", "extend"):
        into = str((f.get("gargs") or ["", ""])[1]) if len(f.get("gargs") or []) > 1 else ""
        if into.startswith(("std::vec::Vec", "std::string::String")) and not any(m.startswith("sort") for m in names):
            out.append(("list", "makes a list in the order of a hash table", True))
    elif n in ("find", "find_map", "last", "nth", "position", "min_by_key", "max_by_key", "reduce"):
        cl = [x for x in bodies if x["path"].startswith(b["path"] + "::{closure")]
        sure = not any(f2["path"].split("::")[-1] in ("eq", "ne") for x in cl + [b] for _, f2, _ in calls(x))
        out.append((n, "picks an element by the order of a hash table", sure))
    return out
