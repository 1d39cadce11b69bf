"""Path-sensitive value-flow analysis over MIR facts.

Abstract state: places -> provenance terms (terms.py), a path condition (decision diagram) and the list of
external effects.  Control-flow joins merge states into gated values; loops are analysed by one generic
iteration from a state where everything the loop writes is unknown, to a fixpoint of the written set."""
import re
from .terms import *
from . import terms as TT


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("mem", "pc", "eff")

    def __init__(self, mem, pc, eff):
        self.mem, self.pc, self.eff = mem, pc, eff

    def copy(self):
        return State(dict(self.mem), self.pc, self.eff)

    def with_pc(self, pc):
        return State(dict(self.mem), pc, self.eff)


class Eff:
    __slots__ = ("kind", "data", "site", "pc")

    def __init__(self, kind, data, site, pc):
        self.kind, self.data, self.site, self.pc = kind, data, site, pc

    def key(self):
        return (self.kind, self.data, self.pc)

    def __eq__(self, o):
        return self.kind == o.kind and self.data == o.data and self.site == o.site

    def __hash__(self):
        return hash((self.kind, self.site))

    def __repr__(self):
        return "%s%r" % (self.kind, self.data)


class Frame:
    __slots__ = ("id", "body", "args", "stack")

    def __init__(self, id, body, stack):
        self.id, self.body, self.stack = id, body, stack


MARK_HASH = False      # mark iterators over hash tables of other crates as unordered too
HASH_ITER = re.compile(r"hash(_map|_set|brown::map|brown::set)::(Iter|IntoIter|Keys|IntoKeys|Values|IntoValues|Drain|Union|Difference|Intersection|SymmetricDifference)\b")


def unordered(v):
    """an iterator over a hash table whose source is not known to be one"""
    if v.op == "it":
        s = v.a[0]
        if s.op in ("ref", "case") or any(y.op in ("unord", "iter_mut") for y in subterms(s)):
            return v
        return mk("it", mk("unord", s), *v.a[1:])
    if v.op == "call" or v.op == "fld":
        return mk("unord", v) if not any(y.op == "unord" for y in subterms(v)) else v
    return v


class LoopRec:
    """what was found out about one loop"""

    def __init__(self):
        self.level = self.src = self.serial = self.site = None
        self.W = {}          # place key -> (lv, init, next)
        self.start = None    # State at start of the generic iteration
        self.backs = []      # States at the end of an iteration
        self.exits = []      # (kind, target, State) kind normal|early
        self.entry = None
        self.anycond = FALSE
        self.drive = None
        self.body = None


DECIMALS = {"ZERO": 0, "ONE": 1, "TWO": 2, "TEN": 10, "ONE_HUNDRED": 100, "ONE_THOUSAND": 1000, "NEGATIVE_ONE": -1}
STRIP = re.compile(r"::<[^<>]*>")


def norm(path):
    """last two path segments without generic arguments: the key of a library model"""
    p = path
    # drop turbofish generics, innermost first, but keep <impl ...>
    while True:
        q = re.sub(r"::<(?!impl)[^<>]*>", "", p)
        q = re.sub(r"(?<=[\w\]\)])<[^<>]*>", "", q) if q == p else q
        if q == p:
            break
        p = q
    m = re.search(r"(<impl [^>]*>)::(\w+)$", p)
    if m:
        return m.group(1) + "::" + m.group(2)
    segs = p.split("::")
    return "::".join(segs[-2:])


class Program:
    """facts of one crate"""

    def __init__(self, d):
        self.crate = d["crate"]
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.adts = {a["path"]: a for a in d["adts"]}
        for a in d["adts"]:
            if a["kind"] == "enum":
                UNIV[a["path"]] = [v["name"] for v in a["variants"]]
        self._cfg = {}

    def by_path(self, suffix, kind="mono"):
        return [b for b in self.bodies.values() if b["kind"] == kind and (b["path"] == suffix or b["path"].endswith("::" + suffix))]

    def cfg(self, b):
        c = self._cfg.get(b["id"])
        if c is None:
            c = self._cfg[b["id"]] = Cfg(b)
        return c


def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[5]]
    if k == "other" and len(t) > 1 and isinstance(t[1], int): return [t[1]]
    return []


class Cfg:
    def __init__(self, b):
        n = len(b["blocks"])
        self.succ = [[] if bb.get("cleanup") else succs(bb["t"]) for bb in b["blocks"]]
        # RPO
        order, seen, back = [], set(), []
        onst = set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0); onst.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v in onst:
                    back.append((u, v))
                if v not in seen:
                    seen.add(v); onst.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                st.pop(); onst.discard(u); order.append(u)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = [[] for _ in range(n)]
        for u in seen:
            for v in self.succ[u]:
                pred[v].append(u)
        self.pred = pred
        self.loops = {}
        for u, h in back:
            L = self.loops.setdefault(h, {h})
            stk = [u]
            while stk:
                x = stk.pop()
                if x in L: continue
                L.add(x)
                stk.extend(pred[x])
        self.reach = seen
        self._pdom = None

    def ipdom(self):
        """immediate post-dominators (over normal control flow, virtual exit -1)"""
        if self._pdom is not None:
            return self._pdom
        nodes = sorted(self.reach)
        exits = [x for x in nodes if not self.succ[x]]
        full = set(nodes) | {-1}
        pd = {x: set(full) for x in nodes}
        pd[-1] = {-1}
        ch = True
        while ch:
            ch = False
            for x in sorted(nodes, key=lambda y: -self.rpo[y]):
                ss = self.succ[x] or [-1]
                new = set.intersection(*[pd[s] for s in ss]) | {x}
                if new != pd[x]:
                    pd[x] = new; ch = True
        res = {}
        for x in nodes:
            c = pd[x] - {x}
            # the closest: the one whose pdom set is largest
            best = None
            for y in c:
                if best is None or len(pd[y]) > len(pd[best]):
                    best = y
            res[x] = best
        self._pdom = res
        return res


def is_tracing(span):
    return any(isinstance(s, str) and s.startswith("macro:") and ("tracing::" in s or s.split(":", 1)[1].startswith("tracing")) for s in span[2:])


class Interp:
    def __init__(self, prog, opaque=()):
        self.p = prog
        self.opaque = set(opaque)
        self.fid = 0
        self.serial = 0
        self.level = 0
        self.loopstack = []
        self.loops = []        # LoopRec of finished loops (final rounds only)
        self.visited = set()   # blocks that some path reaches
        self.panics = []       # (kind, site, pc, info)
        self.came = {}         # (frame, block) -> the condition before the last choice on the way there
        self.at = None
        self.hooks = None      # extra models of library functions, by name
        self.exits = []        # terminal outcomes: (kind, data, site, State)
        self.made = {}         # (type, variant) -> sites that build one
        self.hash_sites = set()  # where hash tables are iterated
        self.calls = []        # (name, args, site, pc, result)
        self.quiet = 0
        self.fntab = []
        self.fnidx = {}
        self.stack = []
        self.unknown = {}
        self.notes = []
        self.vseq = 0
        from . import models
        self.models = models
        self.steps = 0
        self.constcache = {}

    # ------------------------------------------------------------------ places
    def proj_of(self, e, frame, st):
        if e == "*":
            return "*"
        k = e[0]
        if k == "f":
            return mk("pf", e[3] or "", e[4] or "", e[2] if e[2] is not None else str(e[1]), e[1])
        if k == "d":
            return None
        if k == "i":
            return mk("pidx", self.read_local(frame, st, e[1]))
        if k == "ci":
            if e[3]:
                return mk("pend", K(e[1]))
            return mk("pidx", K(e[1]))
        if k == "ss":
            return mk("psub", K(e[1]), K(e[2]), K(1 if e[3] else 0))
        raise Unsupported("proj %s" % (e,))

    def read_local(self, frame, st, n):
        return st.mem.get(("L", frame.id, n), BOT)

    def lval(self, frame, st, place):
        """-> term: ref or case of refs"""
        n, projs = place
        lv = mk("ref", ("L", frame.id, n))
        for e in projs:
            if e == "*":
                v = self.read_ref(st, lv)
                lv = self._deref(lv, v)
                continue
            p = self.proj_of(e, frame, st)
            if p is None or (p.op == "pf" and p.a[0] == "std::boxed::Box"):
                continue
            lv = dist(lv, lambda r: mk("ref", *(r.a + (p,))))
        return lv

    def _deref(self, lv, v):
        if v.op == "ref":
            return v
        if v.op == "case" and any(x.op == "ref" for x in leaves(v)):
            s, it, d = case_items(v)
            return case(s, {k: self._deref(lv, x) if x is not BOT else BOT for k, x in it.items()},
                        self._deref(lv, d) if d is not None else None)
        if v is BOT:
            return lv
        return lv

    def read_ref(self, st, ref):
        """value at a ref (or case of refs)"""
        if ref.op == "case":
            s, it, d = case_items(ref)
            return case(s, {k: self.read_ref(st, x) if x is not BOT else BOT for k, x in it.items()},
                        self.read_ref(st, d) if d is not None else None)
        if ref.op != "ref":
            return ref
        v = st.mem.get(ref.a[0])
        if v is None:
            v = BOT
        for p in ref.a[1:]:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if v.op == "ref":
            v = self.read_ref(st, v)
        if v.op == "case" and any(l.op == "ref" for l in leaves(v)):
            v = dist(v, lambda l: self.read_ref(st, l) if l.op == "ref" else l)
        if p.op == "pf":
            v2 = fld(p.a[1], p.a[2], v)
            return v2
        if p.op == "pmap":
            return m_val(v, p.a[0])
        if p.op == "pidx":
            return index(v, p.a[0])
        if p.op == "pend":
            return call("index_from_end", v, p.a[0])
        if p.op == "psub":
            return call("subslice", v, *p.a)
        raise Unsupported(p.op)

    def write_ref(self, st, ref, val):
        if ref.op == "case":
            s, it, d = case_items(ref)
            for l in list(it) + ([None] if d is not None else []):
                tgt = it[l] if l is not None else d
                if tgt is BOT: continue
                if l is not None:
                    c = eqlabel(s, l)
                else:
                    c = TRUE
                    for x in it: c = AND(c, NOT(eqlabel(s, x)))
                old = self.read_ref(st, tgt)
                self.write_ref(st, tgt, ITE(c, val, old))
            return
        if ref.op != "ref":
            # a mutable borrow we know nothing about
            st.mem[("U", ref)] = val
            return
        root = ref.a[0]
        old = st.mem.get(root, BOT)
        st.mem[root] = self._upd(st, old, list(ref.a[1:]), val)

    def _upd(self, st, old, projs, val):
        if not projs:
            return val
        if old.op == "case" and projs[0].op == "pf":
            # gated: variants which do not match stay as they are
            p = projs[0]
            def g(x):
                if x.op == "adt" and p.a[1] and x.a[1] and x.a[1] != p.a[1]:
                    return x
                return self._upd(st, x, projs, val)
            return dist(old, g)
        p = projs[0]
        if p.op == "pf":
            names = None
            if old.op == "adt":
                names = old.a[2]
                i = names.index(p.a[2]) if p.a[2] in names else None
                if i is None:
                    raise Unsupported("field update")
                vals = list(old.a[3:])
                vals[i] = self._upd(st, vals[i], projs[1:], val)
                return adt(old.a[0], old.a[1], names, vals)
            if old.op == "tup":
                vals = list(old.a)
                vals[int(p.a[2])] = self._upd(st, vals[int(p.a[2])], projs[1:], val)
                return tup(*vals)
            if old.op == "clo":
                vals = list(old.a)
                i = 1 + int(str(p.a[2]).lstrip("up"))
                vals[i] = self._upd(st, vals[i], projs[1:], val)
                return mk("clo", *vals)
            # an atom: expand it
            ex = self.expand(old, p.a[0], p.a[1])
            if ex is not None and p.a[2] in ex.a[2]:
                return self._upd(st, ex, projs, val)
            if old is BOT:
                # piecewise initialisation of a tuple or struct
                return mk("with", old, p.a[2], self._upd(st, BOT, projs[1:], val))
            inner = self._upd(st, fld(p.a[1], p.a[2], old), projs[1:], val)
            if old.op == "with":
                a = list(old.a)
                for i in range(1, len(a), 2):
                    if a[i] == p.a[2]:
                        a[i + 1] = inner
                        return mk("with", *a)
                return mk("with", *(a + [p.a[2], inner]))
            return mk("with", old, p.a[2], inner)
        if p.op == "pmap":
            return m_ins(old, p.a[0], self._upd(st, m_val(old, p.a[0]), projs[1:], val))
        if p.op == "pidx":
            return vupd(old, p.a[0], self._upd(st, index(old, p.a[0]), projs[1:], val))
        return mk("updated", old, p, val)

    def expand(self, atom, path, variant):
        a = self.p.adts.get(path)
        if a is None:
            return None
        vs = a["variants"]
        v = None
        if len(vs) == 1:
            v = vs[0]
        elif variant:
            v = [x for x in vs if x["name"] == variant]
            v = v[0] if v else None
        if v is None:
            return None
        vn = v["name"] if a["kind"] == "enum" else ""
        names = [f[0] for f in v["fields"]]
        return adt(path, vn, names, [fld(variant if a["kind"] == "enum" else "", n, atom) for n in names])

    # ------------------------------------------------------------------ operands and rvalues
    def operand(self, frame, st, o):
        if o[0] in ("c", "m"):
            v = self.read_ref(st, self.lval(frame, st, o[1]))
            return simp_top(v, st.pc)
        return self.const(frame, o[1])

    def const(self, frame, k):
        if "fn" in k:
            return self.fnval(k["fn"])
        if "closure" in k and k["closure"] is not None:
            return mk("clo", k["closure"])
        if "str" in k and k["str"] is not None:
            return S(k["str"])
        if k.get("promoted") is not None:
            return self.evalconst(k["promoted"], k)
        if k.get("cbody") is not None and "v" not in k:
            return self.evalconst(k["cbody"], k)
        if "v" in k and k["v"] is not None:
            v = k["v"]
            if k["t"] == "bool":
                return K(1 if v in (1, True, "1", "true") else 0)
            if isinstance(v, str):
                try:
                    v = int(v)
                except ValueError:
                    pass
            return mk("k", v)
        if "bytes" in k and k["bytes"] is not None:
            return mk("bytes", bytes(k["bytes"]))
        t = k.get("t", "")
        if t == "()":
            return UNIT
        if k.get("name"):
            n = k["name"]
            if "Decimal" in n and n.split("::")[-1] in DECIMALS:
                return K(DECIMALS[n.split("::")[-1]])
            return mk("named", n)
        if "str" in k:
            return S(k["str"] or "")
        return mk("const", t, str(k.get("name") or k.get("rt") or ""))

    def evalconst(self, bid, k):
        if bid in self.constcache:
            return self.constcache[bid]
        b = self.p.bodies.get(bid)
        if b is None:
            return mk("const", k.get("t", ""), str(k.get("name") or ""))
        self.constcache[bid] = mk("const", k.get("t", ""), "cyclic")
        self.quiet += 1
        try:
            outs = self.exec_fn(b, [], State({}, TRUE, ()))
            v = outs[0][1] if len(outs) == 1 else mk("const", k.get("t", ""), str(k.get("name") or bid))
            if v.op == "ref":
                v = self.read_ref(outs[0][0], v)
        except Unsupported:
            v = mk("const", k.get("t", ""), str(k.get("name") or ""))
        finally:
            self.quiet -= 1
        self.constcache[bid] = v
        return v

    def fnval(self, fn):
        key = repr(sorted((a, repr(b)) for a, b in fn.items()))
        i = self.fnidx.get(key)
        if i is None:
            i = self.fnidx[key] = len(self.fntab)
            self.fntab.append(fn)
        # named by what it is, not by table position
        return mk("fnv", fn.get("rpath") or fn["path"], tuple(fn.get("gargs") or ()), i)

    def rvalue(self, frame, st, r, site, destty):
        k = r[0]
        if k == "use":
            return self.operand(frame, st, r[1])
        if k == "ref":
            lv = self.lval(frame, st, r[2])
            if r[1]:
                return lv
            v = self.read_ref(st, lv)
            return simp_top(v, st.pc)
        if k == "rawptr":
            lv = self.lval(frame, st, r[-1] if isinstance(r[-1], list) else r[1])
            return lv
        if k == "cast":
            v = self.operand(frame, st, r[2])
            return self.cast(st, v, r[1], r[3], r[4] if len(r) > 4 else None)
        if k == "bin":
            a = self.operand(frame, st, r[2]); b = self.operand(frame, st, r[3])
            return self.binop(r[1], a, b)
        if k == "un":
            a = self.operand(frame, st, r[2])
            if r[1] == "Not":
                return NOT(a) if (destty == "bool") else call("not", a)
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "PtrMetadata":
                return length(self.deref_val(st, a))
            return call("un_" + r[1], a)
        if k == "discr":
            v = self.read_ref(st, self.lval(frame, st, r[1]))
            if v.op == "ref":
                v = self.read_ref(st, v)
            v = simp_top(v, st.pc)
            return discr(r[2], v)
        if k == "agg":
            ops = [self.operand(frame, st, o) for o in r[2]]
            h = r[1]
            if h == "tuple" or h[0] == "tuple":
                return tup(*ops)
            if h == "array" or h[0] == "array":
                return seq(*ops)
            if h[0] == "adt":
                names = h[4] if len(h) > 4 and h[4] else [str(i) for i in range(len(ops))]
                variant = h[2]
                a = self.p.adts.get(h[1])
                if a is not None and a["kind"] != "enum":
                    variant = ""
                elif a is None and h[1].split("::")[-1] == variant:
                    variant = ""
                if not self.quiet:
                    self.made.setdefault((h[1], variant), set()).add(site)
                return self.mkadt(h[1], variant, names, ops)
            if h[0] == "closure":
                return mk("clo", h[1], *ops)
        if k == "repeat":
            return call("repeat", self.operand(frame, st, r[1]))
        return mk("unk", k, site)

    def mkadt(self, path, variant, names, vals):
        # transparent wrappers: values are described by what they contain
        if path.endswith("borrow::Cow") and len(vals) == 1:
            return vals[0]
        if path.endswith("ops::Range") and len(vals) == 2:
            return mk("range", vals[0], vals[1])
        return adt(path, variant, names, vals)

    def deref_val(self, st, v):
        while True:
            if v.op == "ref":
                v = self.read_ref(st, v)
            elif v.op == "case" and any(l.op == "ref" for l in leaves(v)):
                v = dist(v, lambda l: self.read_ref(st, l) if l.op == "ref" else l)
            else:
                return v

    def cast(self, st, v, kind, to, frm=None):
        if "Pointer" in kind or "Transmute" in kind or "PtrToPtr" in kind or "Unsize" in kind or "ReifyFn" in kind or "ClosureFn" in kind or "Subtype" in kind:
            return v
        if "IntToInt" in kind:
            if v.op == "k":
                return v
            if v.op in ("case", "discr"):
                return v
            return mk("cast", str(to), v)
        return mk("cast", str(to), v)

    def binop(self, op, a, b):
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op.endswith("WithOverflow"):
            return tup(arith(o, a, b), mk("ovf", o, a, b))
        if o == "Eq": return eq(a, b)
        if o == "Ne": return NOT(eq(a, b))
        if o == "Lt": return lt(a, b)
        if o == "Gt": return lt(b, a)
        if o == "Ge": return NOT(lt(a, b))
        if o == "Le": return NOT(lt(b, a))
        if o in ("BitAnd", "BitOr", "BitXor") and (isbool(a) or isbool(b)):
            if o == "BitAnd": return AND(a, b)
            if o == "BitOr": return OR(a, b)
            return ITE(a, NOT(b), b)
        return arith(o, a, b)

    # ------------------------------------------------------------------ functions
    def entry(self, body, args, mem=None):
        st = State(dict(mem or {}), TRUE, ())
        return self.exec_fn(body, args, st)

    def exec_fn(self, body, args, st):
        """-> [(State, return value)] merged by effects"""
        if len(self.stack) > 60 or sum(1 for x in self.stack if x == body["id"]) >= 1:
            raise Unsupported("recursion into " + body["path"])
        self.fid += 1
        fr = Frame(self.fid, body, None)
        st = State(dict(st.mem), st.pc, st.eff)
        for i, a in enumerate(args):
            st.mem[("L", fr.id, i + 1)] = a
        self.stack.append(body["id"])
        try:
            rets, exits = self.region(fr, 0, st, None, None)
        finally:
            self.stack.pop()
        outs = []
        for s in rets:
            rv = s.mem.get(("L", fr.id, 0), UNIT)
            outs.append((s, rv))
        merged = self.merge_outs(outs, fr.id)
        return merged

    def merge_outs(self, outs, fid):
        groups = []
        for s, rv in outs:
            for g in groups:
                if g[0][0].eff == s.eff:
                    g.append((s, rv)); break
            else:
                groups.append([(s, rv)])
        res = []
        for g in groups:
            if len(g) == 1:
                s, rv = g[0]
                s = State({k: v for k, v in s.mem.items() if not (k[0] == "L" and k[1] == fid)}, s.pc, s.eff)
                res.append((s, rv))
            else:
                st = self.merge_states([s for s, _ in g], drop=fid)
                rv = sel([(s.pc, r) for s, r in g])
                res.append((st, rv))
        return res

    def merge_states(self, ss, drop=None):
        keys = {}
        for s in ss:
            for k in s.mem:
                keys[k] = 1
        mem = {}
        for k in keys:
            if drop is not None and k[0] == "L" and k[1] == drop:
                continue
            vs = [s.mem.get(k, BOT) for s in ss]
            v0 = vs[0]
            if all(v is v0 for v in vs):
                mem[k] = v0
            else:
                mem[k] = sel([(s.pc, v) for s, v in zip(ss, vs)])
        pc = FALSE
        for s in ss:
            pc = OR(pc, s.pc)
        return State(mem, pc, ss[0].eff)

    def region(self, fr, start, st, within, header, is_loop_body=False):
        """run blocks from start.  within: allowed block set (None = whole body); header: loop header whose
        re-entry is a back edge. -> (returns, exits) where exits = [(target block or 'back', State)]"""
        cfg = self.p.cfg(fr.body)
        pend = {start: [st]}
        rets, exits = [], []
        first = True
        while pend:
            b = min(pend, key=lambda x: cfg.rpo.get(x, 1 << 30))
            states = pend.pop(b)
            # join
            groups = []
            for s in states:
                if s.pc is FALSE or s.pc is BOT:
                    continue
                for g in groups:
                    if g[0].eff == s.eff:
                        g.append(s); break
                else:
                    groups.append([s])
            for g in groups:
                s = g[0] if len(g) == 1 else self.merge_states(g)
                if b in cfg.loops and not (first and b == header and is_loop_body):
                    for tgt, s2 in self.do_loop(fr, b, s):
                        if tgt == "ret":
                            rets.append(s2)
                        elif within is not None and tgt not in within:
                            exits.append((tgt, s2))
                        elif tgt == header and within is not None:
                            exits.append(("back", s2))
                        else:
                            pend.setdefault(tgt, []).append(s2)
                    continue
                for tgt, s2 in self.block(fr, b, s):
                    if tgt == "ret":
                        rets.append(s2)
                    elif tgt == "back":
                        exits.append(("back", s2))
                    elif within is not None and tgt == header:
                        exits.append(("back", s2))
                    elif within is not None and tgt not in within:
                        exits.append((tgt, s2))
                    else:
                        pend.setdefault(tgt, []).append(s2)
            first = False
        return rets, exits

    def site(self, fr, span):
        return (fr.body["path"], span[0] if span else "", span[1] if span else 0)

    def block(self, fr, bi, st):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported("step limit")
        bb = fr.body["blocks"][bi]
        self.visited.add((fr.body["path"], bi))
        self.at = (fr.id, bi)
        came = self.came.get(self.at)
        st = State(dict(st.mem), st.pc, st.eff)
        locs = fr.body["locals"]
        for s in bb["s"]:
            if s[0] == "=":
                n = s[1][0]
                ty = locs[n][0] if not s[1][1] else None
                v = self.rvalue(fr, st, s[2], self.site(fr, s[3] if len(s) > 3 else None), ty)
                if ty == "bool":
                    regbool(v)
                if not s[1][1]:
                    st.mem[("L", fr.id, n)] = v
                else:
                    self.write_ref(st, self.lval(fr, st, s[1]), v)
            elif s[0] == "dead":
                st.mem.pop(("L", fr.id, s[1]), None)
            elif s[0] == "setdiscr":
                pass
        t = bb["t"]
        k = t[0]
        if k in ("goto", "drop") and came is not None:
            for x in succs(t):
                o = self.came.get((fr.id, x))
                self.came[(fr.id, x)] = came if o is None else OR(o, came)
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "unreachable":
            return []
        if k == "switch":
            if is_tracing(t[5] if len(t) > 5 else []):
                j = self.p.cfg(fr.body).ipdom().get(bi)
                if j is not None and j != -1:
                    return [(j, st)]
            v = self.operand(fr, st, t[1])
            if v.op == "ref":
                v = self.read_ref(st, v)
            outs = self.switch(st, v, t, self.discr_path(fr.body, t[1]))
            for tgt, _ in outs:
                o = self.came.get((fr.id, tgt))
                self.came[(fr.id, tgt)] = st.pc if o is None else OR(o, st.pc)
            return outs
        if came is not None:
            for x in succs(t):
                o = self.came.get((fr.id, x))
                self.came[(fr.id, x)] = came if o is None else OR(o, came)
        if k == "assert":
            # ["assert", cond, expected, kind, ops, target, span]
            kind, tgt = t[3], t[5]
            if "Misaligned" in kind or "NullPointer" in kind:
                return [(tgt, st)]
            v = self.operand(fr, st, t[1])
            regbool(v)
            good = v if t[2] in (True, 1, "true") else NOT(v)
            self.assert_(st, good, kind, [self.operand(fr, st, o) for o in t[4]], self.site(fr, t[6]))
            if "verflow" in kind:
                return [(tgt, st)]
            pc = AND(st.pc, good)
            if pc is FALSE:
                return []
            st.pc = pc
            return [(tgt, st)]
        if k == "call":
            return self.do_call(fr, bi, st, t)
        if k == "other":
            ss = succs(t)
            if ss:
                return [(ss[0], st)]
        return []

    def assert_(self, st, good, kind, ops, site):
        bad = AND(st.pc, NOT(good))
        if bad is FALSE:
            return
        self.oblige(kind if isinstance(kind, str) else str(kind), site, st, bad, tuple(ops), good)

    def oblige(self, kind, site, st, badpc, info, good=None, path=None):
        if self.quiet:
            return
        self.panics.append({"kind": kind, "site": site, "pc": badpc, "info": info, "stack": tuple(self.stack), "good": good, "path": st.pc if path is None else path})

    def discr_path(self, body, op):
        """the enum a switched local holds the discriminant of"""
        if op[0] not in ("c", "m") or op[1][1]:
            return None
        m = body.get("_dp")
        if m is None:
            m = {}
            for bb in body["blocks"]:
                for s in bb["s"]:
                    if s[0] == "=" and s[2][0] == "discr" and not s[1][1]:
                        m[s[1][0]] = s[2][2] if m.get(s[1][0], s[2][2]) == s[2][2] else None
            for _ in range(3):
                for bb in body["blocks"]:
                    for s in bb["s"]:
                        if s[0] == "=" and s[2][0] == "use" and not s[1][1] and s[2][1][0] in ("c", "m") and not s[2][1][1][1] and s[2][1][1][0] in m:
                            m.setdefault(s[1][0], m[s[2][1][1][0]])
            body["_dp"] = m
        return m.get(op[1][0])

    def switch(self, st, v, t, dpath=None):
        out = []
        enum_names = None
        vals = t[2]
        rest = st.pc
        ty = t[4] if len(t) > 4 else ""
        v = simp_top(v, st.pc)
        # labels: discriminants are variant names, resolved via the discr scrutinee
        for val, bb in vals:
            c = self.label_cond(v, val, ty, dpath)
            pc = AND(st.pc, c)
            rest = AND(rest, NOT(c))
            if pc is not FALSE:
                out.append((bb, st.with_pc(pc)))
        if t[3] is not None and rest is not FALSE:
            out.append((t[3], st.with_pc(rest)))
        return out

    def label_cond(self, v, val, ty, dpath=None):
        """condition that switch value v equals the MIR constant val"""
        if v.op == "case":
            s, it, d = case_items(v)
            return nobot(case(s, {k: self.label_cond(x, val, ty, dpath) for k, x in it.items()},
                        self.label_cond(d, val, ty, dpath) if d is not None else None))
        if v is BOT:
            return BOT
        if v.op == "k" and isinstance(v.a[0], str) and ty not in ("char",):
            return TRUE if v.a[0] == self.vname(dpath, int(val)) else FALSE
        iv = val if not isinstance(val, str) else (int(val) if val.lstrip("-").isdigit() else val)
        if v.op == "k":
            return TRUE if v.a[0] == iv else FALSE
        if v.op == "discr":
            return self.variant_cond(v, iv)
        if ty == "bool":
            regbool(v)
            return v if iv == 1 else NOT(v)
        return eqlabel(v, iv)

    def variant_cond(self, d, iv):
        name = self.vname(d.a[0], iv)
        return eqlabel(d, name)

    def vname(self, path, iv):
        a = self.p.adts.get(path)
        if a is not None:
            for v in a["variants"]:
                if str(v["discr"]) == str(iv):
                    return v["name"]
        u = UNIV.get(path)
        if u and isinstance(iv, int) and 0 <= iv < len(u):
            return u[iv]
        return str(iv)

    # ------------------------------------------------------------------ calls
    def do_call(self, fr, bi, st, t):
        func, args, dest, target, span = t[1], t[2], t[3], t[4], t[5]
        site = self.site(fr, span)
        if is_tracing(span):
            if target is None:
                return []
            st.mem[("L", fr.id, dest[0])] = mk("opaque", "tracing")
            return [(target, st)]
        argv = [self.operand(fr, st, a) for a in args]
        argty = [self.opty(fr, a) for a in args]
        dty = fr.body["locals"][dest[0]][0] if not dest[1] else None
        if func[0] == "k" and "fn" in func[1]:
            fn = func[1]["fn"]
            outs = self.call_fn(st, fn, argv, site, argty, dty)
        else:
            fv = self.operand(fr, st, func)
            outs = self.call_val(st, fv, argv, site)
        res = []
        for s2, v in outs:
            if s2 == "skip":
                continue
            if v is None or target is None:
                continue
            if v == "back":
                res.append(("back", s2))
                continue
            if dty == "bool":
                regbool(v)
            s2 = State(dict(s2.mem), s2.pc, s2.eff)
            if not dest[1]:
                s2.mem[("L", fr.id, dest[0])] = v
            else:
                self.write_ref(s2, self.lval(fr, s2, dest), v)
            res.append((target, s2))
        return res

    def opty(self, fr, o):
        if o[0] in ("c", "m"):
            if not o[1][1]:
                return fr.body["locals"][o[1][0]][0]
            last = None
            return ""
        return o[1].get("t", "")

    def call_fn(self, st, fn, argv, site, argty=(), dty=None):
        """-> [(State, value | None for diverges | 'back')]"""
        if fn.get("ctor"):
            path, variant = fn["ctor"][0], fn["ctor"][1]
            return [(st, self.mkadt(path, variant or "", [str(i) for i in range(len(argv))], argv))]
        inst = fn.get("inst")
        name = norm(fn["path"])
        rp = fn.get("rpath") or fn["path"]
        if inst is not None and inst in self.p.bodies and rp not in self.opaque:
            b = self.p.bodies[inst]
            over = self.models.LOCAL.get(name)
            if over:
                return over(self, st, argv, fn, site)
            try:
                nargs = argv
                if b.get("upvars") is not None or b["argc"] != len(argv):
                    # closure called through Fn* traits: (env, (args,))
                    if len(argv) == 2 and argv[1].op == "tup":
                        nargs = [argv[0]] + list(argv[1].a)
                outs = self.exec_fn(b, nargs, st)
                self.note_call(rp, argv, site, st.pc, outs, True)
                return outs
            except Unsupported as e:
                self.note("unsupported", str(e), site)
                # as an unknown function
        m = self.hooks.get(name) if self.hooks is not None else None
        if m is None:
            m = self.models.MODELS.get(name)
        if m is None:
            m = self.models.find(fn)
        if m is not None:
            if argv and ("Iter" in name or "Hash" in name):
                g = fn.get("gargs") or []
                if g and HASH_ITER.search(g[0]) or "Hash" in name:
                    self.hash_sites.add((site[0], site[1], site[2]) if site else None)
                if MARK_HASH and g and HASH_ITER.search(g[0]) and "Iter" in name:
                    argv = [unordered(argv[0])] + list(argv[1:])
            r = m(self, st, argv, fn, site)
            if r is not None:
                if r.__class__ is T:
                    r = [(st, r)]
                return r
        return self.extern(st, rp if inst is not None else (fn.get("rpath") or fn["path"]), argv, site, fn, argty)

    def note(self, *a):
        if not self.quiet:
            self.notes.append(a)

    def note_call(self, name, argv, site, pc, outs, local):
        pass

    def short(self, path):
        return norm(path)

    def extern(self, st, path, argv, site, fn, argty=()):
        """unknown library function: a pure function of its arguments which may update what it was given
        mutably"""
        name = self.short(fn["path"])
        vals = []
        st = State(dict(st.mem), st.pc, st.eff)
        muts = []
        for i, a in enumerate(argv):
            if a.op == "ref" or (a.op == "case" and any(l.op == "ref" for l in leaves(a))):
                muts.append((i, a))
                vals.append(self.read_ref(st, a))
            elif a.op in ("clo", "it"):
                vals.append(self.close_value(st, a, site))
            else:
                vals.append(a)
        vals = [self.freeze(st, v, site) for v in vals]
        vals = [simp(v, st.pc) for v in vals]
        r = call(name, *vals)
        for i, m in muts:
            self.write_ref(st, m, mk("after", name, i, *vals))
        if muts:
            pass
        if name not in self.models.PURE and (muts or name in self.models.EFFECTFUL):
            if name in self.models.EFFECTFUL or any(self.is_escaping(m) for _, m in muts):
                st.eff = st.eff + (Eff("call", (name,) + tuple(vals), site, st.pc),)
        if not self.quiet:
            self.calls.append({"name": name, "path": path, "args": tuple(vals), "site": site, "pc": st.pc, "res": r, "fn": fn, "stack": tuple(self.stack)})
        if name in self.models.DIVERGES:
            self.exits.append({"kind": name, "args": tuple(vals), "site": site, "state": st, "stack": tuple(self.stack)})
            return []
        return [(st, r)]

    def is_escaping(self, ref):
        return False

    def freeze(self, st, v, site):
        """replace references and lazy iterators nested in a value by the values they denote"""
        if v.op == "ref":
            return self.freeze(st, self.read_ref(st, v), site)
        if v.op == "it":
            return self.close_value(st, v, site)
        if not v.kids:
            return v
        if not any(x.op in ("ref", "it", "clo") for x in subterms(v)):
            return v
        if v.op == "clo":
            return self.close_value(st, v, site)
        if v.op in ("adt", "tup", "seq", "case"):
            kids = v.kids
            if v.op == "case":
                return rebuild(v, [kids[0]] + [self.freeze(st, k, site) for k in kids[1:]])
            return rebuild(v, [self.freeze(st, k, site) for k in kids])
        return v

    def close_value(self, st, a, site):
        if a.op == "it":
            s2, q = self.force(st, a, site)
            return q
        if a.op == "clo":
            b = self.p.bodies.get(a.a[0])
            if b is None:
                return a
            n = b["argc"] - 1
            lvl = self.level
            self.level += 1
            params = [mk("bv", lvl, i) for i in range(n)]
            try:
                outs = self.call_val(st, a, [tup(*params)] if False else params, site)
                if len(outs) == 1 and outs[0][1] is not None and outs[0][1] != "back":
                    ret = self.freeze(outs[0][0], outs[0][1], site)
                    return mk("lam", lvl, n, ret)
            except Unsupported as e:
                self.note("unsupported", str(e), site)
            finally:
                self.level -= 1
        return a

    def call_val(self, st, f, args, site):
        """call a closure or function value with an argument list"""
        f = self.deref_val(st, f)
        if f.op == "clo":
            b = self.p.bodies.get(f.a[0])
            if b is None:
                return self.extern(st, "closure", [f] + list(args), site, {"path": "closure"})
            if b["argc"] == 2 and len(args) != 1 and b.get("spread"):
                args = [tup(*args)]
            outs = self.exec_fn(b, [f] + list(args), st)
            return outs
        if f.op == "fnv":
            fn = self.fntab[f.a[2]]
            return self.call_fn(st, fn, list(args), site)
        if f.op == "case":
            s, it, d = case_items(f)
            outs = []
            for l, v in it.items():
                pc = AND(st.pc, eqlabel(s, l))
                if pc is FALSE or v is BOT: continue
                outs += self.call_val(st.with_pc(pc), v, args, site)
            return outs
        return self.extern(st, "fnvalue", [f] + list(args), site, {"path": "fnvalue"})

    def call1(self, st, f, args, site):
        """call and merge into one outcome if possible: -> (State, value); raises if it diverges on every path"""
        outs = [o for o in self.call_val(st, f, args, site) if o[1] is not None]
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0]
        # differing effects: cannot be merged
        self.note("split", "closure with differing effects", site)
        st2 = self.merge_states([o[0] for o in outs])
        v = sel([(o[0].pc, o[1]) for o in outs])
        return st2, v

    def gated(self, st, cond, f):
        """run f(state) -> (state, value) under cond and merge with the unchanged state. -> (State, value or BOT)"""
        pc = AND(st.pc, cond)
        if pc is FALSE:
            return st, BOT
        if implies(st.pc, cond):
            r = f(st)
            if r is None:
                return None, BOT
            return r
        r = f(st.with_pc(pc))
        other = st.with_pc(AND(st.pc, NOT(cond)))
        if r is None:
            return other, BOT
        s2, v = r
        if s2.eff != other.eff:
            e = s2.eff[len(other.eff):]
            other.eff = other.eff + (Eff("gated", e, ("", "", 0), pc),)
            s2 = State(dict(s2.mem), s2.pc, other.eff)
        m = self.merge_states([s2, other])
        return m, v

    # ------------------------------------------------------------------ loops
    def diff(self, old, new, key, out):
        if old is new:
            return
        if new.op == "adt" and (old.op == "adt" and old.a[:3] == new.a[:3]):
            for n, x, y in zip(new.a[2], old.a[3:], new.a[3:]):
                self.diff(x, y, key + (mk("pf", new.a[0], new.a[1], n, 0),), out)
            return
        if new.op == "tup" and old.op == "tup" and len(old.a) == len(new.a):
            for i, (x, y) in enumerate(zip(old.a, new.a)):
                self.diff(x, y, key + (mk("pf", "", "", str(i), i),), out)
            return
        if new.op == "adt" and old.op not in ("adt", "case") and old is not BOT:
            a = self.p.adts.get(new.a[0])
            if a is not None and len(a["variants"]) == 1:
                for n, y in zip(new.a[2], new.a[3:]):
                    self.diff(fld("", n, old), y, key + (mk("pf", new.a[0], "", n, 0),), out)
                return
        if new.op == "case" and old.op in ("adt", "tup"):
            # merges that cannot share one record (one arm never comes back): member by member
            leaves, todo, seen = [], [new], set()
            while todo:
                t = todo.pop()
                if t in seen or t is BOT or t is old:
                    continue
                seen.add(t)
                if t.op == "case":
                    sc, it, d = case_items(t)
                    todo += list(it.values()) + ([d] if d is not None else [])
                else:
                    leaves.append(t)
            k = 3 if old.op == "adt" else 0
            if leaves and all(t.op == old.op and len(t.a) == len(old.a) and t.a[:k] == old.a[:k] for t in leaves):
                for t in leaves:
                    self.diff(old, t, key, out)
                return
        out[key] = (old, new)

    def iterate(self, st, body_fn, site, drive=None, name=None):
        """generic loop.  body_fn(state) -> (backs [State], exits [(target, State)], rets [State])
        Returns a LoopRec with closed forms applied: rec.normal/early are lists of (target, State)"""
        self.serial += 1
        serial = self.serial
        entry = st
        rec = LoopRec()
        rec.entry = entry
        rec.level = self.level
        rec.serial = serial
        rec.site = site
        rec.body = self.stack[-1] if self.stack else None
        W = {}      # key -> lv term
        induct = {}  # key -> term of (init + idx)
        rounds = 0
        self.level += 1
        came0 = self.came
        try:
            while True:
                rounds += 1
                self.came = dict(came0)
                s0 = State(dict(entry.mem), entry.pc, ())
                for key, lvt in W.items():
                    v = induct.get(key, lvt)
                    self.write_ref(s0, mk("ref", *key), v)
                rec.src = None
                rec.more = mk("more", rec.level, serial)
                rec.drive = None
                rec.start = s0
                rec.elem_shape = None
                self.loopstack.append(rec)
                marks = (len(self.panics), len(self.calls), len(self.exits), len(self.loops), len(self.notes))
                try:
                    if drive is not None:
                        rec.src = drive
                    backs, exits, rets = body_fn(s0, rec)
                finally:
                    self.loopstack.pop()
                changed = {}
                for b in backs:
                    for root, v in b.mem.items():
                        o = s0.mem.get(root)
                        if o is None or o is v or root not in entry.mem:
                            if o is None and root[0] == "U":
                                pass
                            continue
                        self.diff(o, v, (root,), changed)
                new = False
                for key in changed:
                    if key not in W:
                        # drop more specific keys
                        if any(len(k2) < len(key) and key[:len(k2)] == k2 for k2 in W):
                            k2 = [k2 for k2 in W if len(k2) < len(key) and key[:len(k2)] == k2][0]
                            continue
                        for k2 in [k2 for k2 in W if len(k2) > len(key) and k2[:len(key)] == key]:
                            del W[k2]
                            induct.pop(k2, None)
                        W[key] = mk("lv", rec.level, serial, self.keyname(key, entry))
                        new = True
                if not new and not induct.get("done"):
                    # induction variables: next = lv + 1
                    merged = self.merge_states([State(b.mem, b.pc, ()) for b in backs]) if backs else None
                    if merged is not None and rec.src is not None:
                        for key, lvt in W.items():
                            if key in induct: continue
                            nx = self.read_ref(merged, mk("ref", *key))
                            if nx is add(lvt, K(1)):
                                init = self.read_ref(entry, mk("ref", *key))
                                induct[key] = add(init, mk("idx", rec.level))
                                new = True
                            elif nx.op == "k" or (nx.op == "str") or (nx.op == "adt" and not nx.kids):
                                init = self.read_ref(entry, mk("ref", *key))
                                if init.op in ("k", "str", "adt") and not init.kids:
                                    induct[key] = case(mk("isfirst", rec.level), {1: init, 0: nx})
                                    new = True
                    induct["done"] = True
                if not new or rounds > 8:
                    break
                del self.panics[marks[0]:], self.calls[marks[1]:], self.exits[marks[2]:], self.loops[marks[3]:], self.notes[marks[4]:]
        finally:
            self.level -= 1
        induct.pop("done", None)
        rec.backs = backs
        rec.rawexits = exits
        rec.rets = rets
        rec.induct = induct
        merged = self.merge_states([State(b.mem, b.pc, ()) for b in backs]) if backs else None
        for key, lvt in W.items():
            init = self.read_ref(entry, mk("ref", *key))
            nx = self.read_ref(merged, mk("ref", *key)) if merged is not None else lvt
            rec.W[key] = (lvt, init, self.unmore(nx, rec.more))
        self.finish_loop(rec)
        if not self.quiet:
            self.loops.append(rec)
        return rec

    def keyname(self, key, st):
        root = key[0]
        nm = []
        if root[0] == "L":
            nm.append("local%d" % root[2])
        else:
            nm.append(str(root[1]) if not isinstance(root[1], T) else "u")
        for p in key[1:]:
            nm.append(str(p.a[2]) if p.op == "pf" else p.op)
        return ".".join(nm)

    def unmore(self, t, more):
        return restrict(t, more, 1)

    def finish_loop(self, rec):
        entry = rec.entry
        more = rec.more
        base = entry.pc
        for b in rec.backs:
            b.pc = restrict(b.pc, more, 1)
        allx = [("x", tgt, s) for tgt, s in rec.rawexits] + [("r", "ret", s) for s in rec.rets]
        normal, early = [], []
        for kind, tgt, s in allx:
            if rec.src is not None and restrict(s.pc, more, 1) is FALSE:
                normal.append((tgt, s))
            elif rec.src is not None and restrict(s.pc, more, 0) is FALSE:
                early.append((tgt, s))
            elif rec.src is not None:
                # a join after a break merged both
                a = s.with_pc(AND(s.pc, NOT(more)))
                b = s.with_pc(AND(s.pc, more))
                a.eff = b.eff = s.eff
                normal.append((tgt, State({k: restrict(v, more, 0) for k, v in a.mem.items()}, a.pc, a.eff)))
                early.append((tgt, State({k: restrict(v, more, 1) for k, v in b.mem.items()}, b.pc, b.eff)))
            else:
                early.append((tgt, s))
        body_eff = tuple((b.pc, b.eff) for b in rec.backs if b.eff)
        loop_eff = ()
        if body_eff:
            loop_eff = (Eff("loop", (rec.src if rec.src is not None else K("?"), rec.level, body_eff), rec.site, base),)
        rec.loop_eff = loop_eff
        cond = FALSE
        for tgt, s in early:
            cond = OR(cond, rel(restrict(s.pc, more, 1), base))
        rec.anycond = cond
        src, level = rec.src, rec.level
        rec.normal, rec.early = [], []
        if src is None:
            for tgt, s in allx and [(t, s) for _, t, s in allx]:
                rec.early.append((tgt, State(s.mem, s.pc, entry.eff + loop_eff + s.eff)))
            return
        A = any_(level, src, cond)
        # closed forms
        final = {}
        for key, (lvt, init, nx) in rec.W.items():
            final[key] = self.closed(rec, key, lvt, init, nx)
        rec.final = final
        lvmap = {}
        for key, (lvt, init, nx) in rec.W.items():
            lvmap[lvt] = final[key]
        # induction variables appear as idx terms in normal exit states
        for tgt, s in normal:
            pc = AND(base, NOT(A))
            s2 = State({}, pc, entry.eff + loop_eff + s.eff)
            m = dict(lvmap)
            m2 = {}
            for key, it in rec.induct.items():
                pass
            for k, v in s.mem.items():
                v = restrict(v, more, 0)
                if v.lvs:
                    v = subst(v, m)
                s2.mem[k] = v
            for key, it in rec.induct.items():
                self.write_ref(s2, mk("ref", *key), final[key])
            # knowledge about loop state at exit (e.g. flags) is carried in the pc
            q = rel(restrict(s.pc, more, 0), base)
            if q is not TRUE:
                q = subst(q, m)
                s2.pc = AND(pc, q)
            if s2.pc is not FALSE:
                rec.normal.append((tgt, s2))
        firstm = {}
        fe = mk("first", level, src, cond)
        fi = mk("firstidx", level, src, cond)
        for tgt, s in early:
            c = rel(restrict(s.pc, more, 1), base)
            c2 = rel(c, cond) if c is not cond else TRUE
            m = {mk("idx", level): fi}
            for l in set(s.pc.lvs):
                pass
            def sub(v):
                v = restrict(v, more, 1)
                if not v.lvs:
                    return v
                mm = dict(m)
                for l in v.lvs:
                    if l.op == "elem" and l.a[0] == level:
                        mm[l] = fe if l.a[1] is src else mk("first", level, l.a[1], cond)
                return subst(v, mm)
            s2 = State({}, FALSE, entry.eff + loop_eff + s.eff)
            for k, v in s.mem.items():
                s2.mem[k] = sub(v)
            pc = AND(base, A)
            if c2 is not TRUE:
                pc = AND(pc, sub(c2))
            s2.pc = pc
            if pc is not FALSE:
                rec.early.append((tgt, s2))

    def closed(self, rec, key, lvt, init, nx):
        src, level = rec.src, rec.level
        if key in rec.induct:
            nv = rec.induct[key]
            if nv.op == "case" or nv.op != "add" and nv is not mk("idx", level):
                # value after the loop
                if nv.op == "case" and nv.a[0] is mk("isfirst", level):
                    last = cof(nv, mk("isfirst", level), 0)
                    return ITE(isempty(src), init, last)
            return add(init, length(src))
        def own(t):
            return lvt in t.lvs
        def delta(t, strip):
            """items appended by one iteration, as a gated sequence"""
            if t is lvt:
                return EMPTYSEQ
            if t.op == "case":
                s, it, d = case_items(t)
                if own(s): return None
                r = {k: delta(v, strip) for k, v in it.items()}
                rd = delta(d, strip) if d is not None else None
                if any(v is None for v in r.values()) or (d is not None and rd is None):
                    return None
                return case(s, r, rd)
            if t is BOT:
                return BOT
            q = strip(t)
            return q
        def s_push(t):
            if t.op == "cat" and t.a[0] is lvt and not any(own(x) for x in t.a[1:]):
                return cat(*t.a[1:])
            # gated inside a cat: cat(lv, case)
            return None
        def s_set(t):
            if t.op == "toset":
                q = t.a[0]
                if q.op == "cat" and q.a[0] is lvt and not any(own(x) for x in q.a[1:]):
                    return cat(*q.a[1:])
                if q is lvt: return EMPTYSEQ
                if q.op == "case":
                    return delta(q, s_push)
            return None
        def s_map(t):
            items = []
            while t.op == "mins":
                if own(t.a[1]) or own(t.a[2]): return None
                items.append(tup(t.a[1], t.a[2]))
                t = t.a[0]
            if t is lvt:
                return seq(*reversed(items))
            return None
        def s_add(t):
            if t.op == "add" and lvt in t.a:
                o = t.a[1] if t.a[0] is lvt else t.a[0]
                if not own(o): return seq(o)
            return None
        def s_set2(t):
            if not own(t): return seq(t)
            return None
        d = delta(nx, s_push)
        if d is not None:
            return cat(init, comp(level, src, d))
        d = delta(nx, s_set)
        if d is not None:
            return toset(cat(unset(init), unun(comp(level, src, d))))
        d = delta(nx, s_map)
        if d is not None:
            return mk("tomap", cat(unset(init), unun(comp(level, src, d))))
        d = delta(nx, s_add)
        if d is not None:
            c = comp(level, src, d)
            if all(l.op == "seq" and all(x is K(1) for x in l.a) for l in leaves(d)):
                return add(init, length(c))
            return add(init, sum_of(c))
        d = delta(nx, s_set2)
        if d is not None:
            if all(l is EMPTYSEQ or (l.op == "seq" and l.a[0] is TRUE) for l in leaves(d)) and init is FALSE:
                return any_(level, src, dist(d, lambda l: TRUE if l.a else FALSE))
            if all(l is EMPTYSEQ or (l.op == "seq" and l.a[0] is FALSE) for l in leaves(d)) and init is TRUE:
                return NOT(any_(level, src, dist(d, lambda l: TRUE if l.a else FALSE)))
            return mk("last", init, comp(level, src, d))
        return mk("loopout", level, src, init, lvt, nx)

    def do_loop(self, fr, header, st):
        cfg = self.p.cfg(fr.body)
        blocks = cfg.loops[header]
        site = (fr.body["path"], fr.body["span"][0], self.hline(fr, header))
        done = self.unrolled(fr, header, st, blocks)
        if done is not None:
            return done

        def body_fn(s0, rec):
            rets, exits = self.region(fr, header, s0, blocks, header, True)
            backs = [s for t, s in exits if t == "back"]
            ex = [(t, s) for t, s in exits if t != "back"]
            return backs, ex, rets
        rec = self.iterate(st, body_fn, site)
        rec.fr = fr
        return rec.normal + rec.early

    def unrolled(self, fr, header, st, blocks):
        """a loop over a handful of given elements, one after another; None if it is not one"""
        bb = fr.body["blocks"][header]
        t = bb["t"]
        if t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1] or len(t[2]) != 1:
            return None
        if self.models.norm_trait(t[1][1]["fn"]) != "Iterator::next" or t[2][0][0] not in ("m", "c"):
            return None
        s0 = State(dict(st.mem), st.pc, st.eff)
        for s in bb["s"]:
            if s[0] != "=":
                continue
            if s[2][0] not in ("ref", "&", "use", "rawptr"):
                return None
            v = self.rvalue(fr, s0, s[2], self.site(fr, s[3] if len(s) > 3 else None), None)
            if s[1][1]:
                return None
            s0.mem[("L", fr.id, s[1][0])] = v
        r = self.operand(fr, s0, t[2][0])
        if r.op != "ref":
            return None
        v = self.read_ref(st, r)
        while v.op == "ref":
            r, v = v, self.read_ref(st, v)
        src, sts = self.as_it(v)
        if sts:
            return None
        ways = given_items(src)
        if ways is None or not any(ways_ for _, ways_ in ways):
            return None
        out, live = [], []
        for c, items in ways:
            pc = AND(st.pc, c)
            if pc is FALSE:
                continue
            s1 = State(dict(st.mem), pc, st.eff)
            self.write_ref(s1, r, seq(*items))
            live.append((len(items), s1))
        top_ = max([n for n, _ in live] or [0])
        for k in range(top_, -1, -1):
            here = [s for n, s in live if n == k]
            if not here:
                continue
            rets, exits = [], []
            for s1 in here:
                a, b = self.region(fr, header, s1, blocks, header, True)
                rets += a
                exits += b
            out += [("ret", s) for s in rets] + [(x, s) for x, s in exits if x != "back"]
            live += [(k - 1, s) for x, s in exits if x == "back"]
        return out

    def hline(self, fr, b):
        t = fr.body["blocks"][b]["t"]
        for x in reversed(t):
            if isinstance(x, list) and len(x) >= 2 and isinstance(x[0], str) and isinstance(x[1], int):
                return x[1]
        return fr.body["span"][1]

    # ------------------------------------------------------------------ sequences and lazy iterators
    def as_it(self, v):
        """view a value as (source, stages)"""
        if v.op == "it":
            return v.a[0], list(v.a[1:])
        return v, []

    def open_src(self, src, level):
        """canonical binder of a source: -> (binder source, element term, filter condition, index term)"""
        if src.op == "comp" and all(l.op == "seq" and len(l.a) <= 1 for l in leaves(src.a[2])):
            l0, s0, body = src.a
            bs, el0, f0, ix0 = self.open_src(s0, level)
            m = {mk("elem", l0, s0): el0, mk("idx", l0): ix0}
            b2 = subst_open(body, l0, s0, el0, ix0)
            el = dist(b2, lambda l: l.a[0] if l.a else BOT)
            cond = nobot(dist(b2, lambda l: TRUE if l.a else FALSE))
            oto = cond is TRUE and f0 is TRUE
            return bs, el, AND(f0, cond), (ix0 if oto else mk("call", "filtered_index", src, ix0))
        if src.op == "range" and src.a[0] is K(0) and src.a[1].op == "len":
            v = src.a[1].a[0]
            bs, el, f, ix = self.open_src(v, level)
            return bs, ix, f, ix
        if src.op == "zip":
            x = self.open_src(src.a[0], level)
            y = self.open_src(src.a[1], level)
            if x[2] is TRUE and y[2] is TRUE:
                if x[0] is y[0]:
                    return x[0], tup(x[1], y[1]), TRUE, x[3]
                bs = mk("zip", x[0], y[0])
                return bs, tup(x[1], y[1]), TRUE, mk("idx", level)
        return src, mk("elem", level, src), TRUE, mk("idx", level)

    def stages(self, st, stages, el, ix, cond, site):
        """run one generic element through the adaptor stages: -> [(State, item or None)] , None = filtered out"""
        cur = [(st, el, ix)]
        if cond is not TRUE:
            pc = AND(st.pc, cond)
            outs = []
            if pc is not FALSE:
                cur = [(st.with_pc(pc), el, ix)]
            else:
                cur = []
            npc = AND(st.pc, NOT(cond))
            skipped = [(st.with_pc(npc), None)] if npc is not FALSE else []
        else:
            skipped = []
        for sg in stages:
            nxt = []
            kind, f = sg.a[0], (sg.a[1] if len(sg.a) > 1 else None)
            for s, x, i in cur:
                if kind == "map":
                    for s2, v in self.call_val(s, f, [x], site):
                        if v is not None:
                            nxt.append((s2, v, i))
                elif kind == "inspect":
                    for s2, v in self.call_val(s, f, [x], site):
                        nxt.append((s2, x, i))
                elif kind == "enumerate":
                    nxt.append((s, tup(i if i is not None else call("filtered_index", x), x), i))
                elif kind in ("filter", "filter_map", "flatten1"):
                    if kind == "flatten1":
                        outs = [(s, x)]
                    else:
                        outs = [o for o in self.call_val(s, f, [x], site) if o[1] is not None]
                    for s2, v in outs:
                        if kind == "filter":
                            c = v; val = x
                            regbool(c)
                        else:
                            c = is_some(v); val = fld("Some", "0", v)
                        p1 = AND(s2.pc, c)
                        if p1 is not FALSE:
                            s3 = s2.with_pc(p1)
                            nxt.append((s3, simp_top(val, p1), None if c is not TRUE else i))
                        p0 = AND(s2.pc, NOT(c))
                        if p0 is not FALSE:
                            skipped.append((s2.with_pc(p0), None))
                else:
                    raise Unsupported("stage " + kind)
            cur = nxt
        return [(s, x) for s, x, i in cur] + skipped

    def split_stages(self, sts):
        for i, s in enumerate(sts):
            if s.a[0] in ("flat_map", "skip_while", "take_while", "map_while"):
                return sts[:i], s, sts[i + 1:]
        return sts, None, []

    def force(self, st, v, site):
        """lazy iterator -> (State, sequence term), running its closures"""
        v = self.deref_val(st, v)
        if v.op == "case":
            s, it, d = case_items(v)
            if any(x.op == "it" for x in it.values()) or (d is not None and d.op == "it"):
                pairs = []
                states = []
                for l, x in it.items():
                    pc = AND(st.pc, eqlabel(s, l))
                    if pc is FALSE or x is BOT: continue
                    s2, q = self.force(st.with_pc(pc), x, site)
                    states.append(s2); pairs.append((s2.pc, q))
                if len(states) == 1:
                    return states[0], pairs[0][1]
                return self.merge_states(states), sel(pairs)
            return st, v
        if v.op != "it":
            return st, v
        src, sts = self.as_it(v)
        if src.op == "case" and any(x.op in ("seq", "cat", "it") for x in leaves(src)):
            s, it, d = case_items(src)
            pairs, states = [], []
            for l, x in it.items():
                pc = AND(st.pc, eqlabel(s, l))
                if pc is FALSE or x is BOT: continue
                s2, q = self.force(st.with_pc(pc), mk("it", x, *sts), site)
                states.append(s2); pairs.append((s2.pc, q))
            if d is None and states:
                if len(states) == 1:
                    return states[0], pairs[0][1]
                return self.merge_states(states), sel(pairs)
        if src.op == "it":
            st, src = self.force(st, src, site)
        if not sts:
            return st, src
        pre, sp, post = self.split_stages(sts)
        if sp is not None:
            if sp.a[0] == "flat_map":
                st, q = self.force_pre(st, src, pre + [mk("st", "map", sp.a[1])], site, True)
            else:
                st, q0 = self.force(st, mk("it", src, *pre) if pre else src, site)
                q = call(sp.a[0], q0, self.close_value(st, sp.a[1], site))
            if post:
                return self.force(st, mk("it", q, *post), site)
            return st, q
        return self.force_pre(st, src, sts, site, False)

    def force_pre(self, st, src, sts, site, flat):
        """comprehension over src"""
        if src.op == "seq" and len(src.a) <= 8:
            # a literal: element by element
            items = []
            for i, x in enumerate(src.a):
                outs = self.stages(st, sts, x, K(i), TRUE, site)
                ss = [o[0] for o in outs]
                if not ss:
                    return st, EMPTYSEQ
                vals = []
                for s2, y in outs:
                    if y is None:
                        vals.append((s2.pc, EMPTYSEQ))
                    elif flat:
                        s2b, yq = self.to_seq(s2, y, site)
                        vals.append((s2.pc, yq))
                    else:
                        vals.append((s2.pc, seq(y)))
                items.append(sel([(rel(c, st.pc), q) for c, q in vals]) if len(vals) > 1 else vals[0][1])
                st = ss[0] if len(ss) == 1 else self.merge_states(ss)
            return st, cat(*items)
        self.vseq += 1
        root = ("V", self.vseq)
        st = State(dict(st.mem), st.pc, st.eff)
        st.mem[root] = EMPTYSEQ
        bs, el, cond, ix = self.open_src(src, self.level)

        def body_fn(s0, rec):
            rec.src = bs
            s1 = s0.with_pc(AND(s0.pc, rec.more))
            backs = []
            for s2, x in self.stages(s1, sts, el, ix, cond, site):
                if x is not None:
                    s2 = State(dict(s2.mem), s2.pc, s2.eff)
                    if flat:
                        s2, q = self.to_seq(s2, x, site)
                        s2 = State(dict(s2.mem), s2.pc, s2.eff)
                    else:
                        q = seq(self.freeze(s2, x, site) if x.op == "it" else x)
                    s2.mem[root] = cat(s2.mem[root], q)
                backs.append(s2)
            return backs, [("done", s0.with_pc(AND(s0.pc, NOT(rec.more))))], []
        rec = self.iterate(st, body_fn, site, drive=bs)
        if not rec.normal:
            return st, EMPTYSEQ
        s = rec.normal[0][1]
        q = s.mem.pop(root)
        return s, q

    def to_seq(self, st, v, site):
        """any iterable value as a sequence term"""
        v = self.deref_val(st, v)
        if v.op == "it":
            return self.force(st, v, site)
        if v.op == "case" and any(x.op == "it" for x in leaves(v)):
            return self.force(st, v, site)
        v = opt_seq(v)
        return st, v

    def next_in_loop(self, st, ref, site):
        """Iterator::next on an iterator living outside the innermost loop and only advanced by it"""
        if not self.loopstack:
            return None
        rec = self.loopstack[-1]
        if ref.op != "ref" or ref.a[0] not in rec.entry.mem:
            return None
        cur = self.read_ref(st, ref)
        if cur is not self.read_ref(rec.entry, ref):
            return None
        if cur.lvs and any(l.op == "lv" and l.a[0] == rec.level and l.a[1] == rec.serial for l in cur.lvs):
            return None
        if rec.drive is not None and rec.drive is not ref:
            return None
        if rec.drive is ref and rec.more in st.pc.sc | BOOLS_IN(st.pc):
            return None
        src, sts = self.as_it(cur)
        if cur.op == "case":
            src, sts = cur, []
        if src.op in ("seq",) and not sts and not src.a:
            pass
        if src.op == "it":
            return None
        pre, sp, post = self.split_stages(sts)
        rec.drive = ref
        if sp is not None:
            self.level -= 1
            try:
                s9, q = self.force(State(dict(st.mem), rec.entry.pc, ()), cur, site)
            finally:
                self.level += 1
            src, pre = q, []
        bs, el, cond, ix = self.open_src(src, rec.level)
        rec.src = bs
        outs = []
        p0 = AND(st.pc, NOT(rec.more))
        if p0 is not FALSE:
            outs.append((st.with_pc(p0), NONE))
        p1 = AND(st.pc, rec.more)
        if p1 is not FALSE:
            for s2, x in self.stages(st.with_pc(p1), pre, el, ix, cond, site):
                if x is None:
                    outs.append((s2, "back"))
                else:
                    outs.append((s2, some(x)))
        return outs


def given_items(src):
    """[(condition, items)], one for each number of items, of a source whose elements are all given; None if it has others"""
    def g(x):
        if x.op == "seq":
            return [(TRUE, list(x.a))]
        if x.op == "adt" and x.a[0] == OPT:
            return [(TRUE, list(x.a[3:]))]
        ways = []
        if x.op == "cat":
            ways = [(TRUE, [])]
            for part in x.a:
                w = given_items(part)
                if w is None:
                    return None
                ways = [(AND(c, d), y + z) for c, y in ways for d, z in w]
            return ways
        if x.op == "case":
            s, it, d = case_items(x)
            if d is not None:
                return None
            for l, y in it.items():
                if y is BOT:
                    continue
                w = given_items(y)
                if w is None:
                    return None
                ways += [(AND(eqlabel(s, l), c), z) for c, z in w]
            return ways
        return None
    ways = g(src)
    if ways is None:
        return None
    by = {}
    for c, x in ways:
        if c is not FALSE:
            by.setdefault(len(x), []).append((c, x))
    if len(by) > 4 or max(by, default=0) > 6:
        return None
    out = []
    for n in sorted(by):
        w = by[n]
        if len(w) == 1:
            out.append(w[0])
            continue
        pc = w[0][0]
        for c, _ in w[1:]:
            pc = OR(pc, c)
        out.append((pc, [sel([(c, x[i]) for c, x in w]) for i in range(n)]))
    return out


def opt_seq(v):
    """Option as a sequence of at most one item; transparent otherwise"""
    def g(x):
        if x.op == "adt" and x.a[0] == OPT:
            return seq(*x.a[3:])
        if x.op == "adt" and x.a[0] == RES:
            return seq(*x.a[3:]) if x.a[1] == "Ok" else EMPTYSEQ
        return x
    return dist(v, g)


def subst_open(body, l0, s0, el, ix):
    m = {}
    for l in body.lvs:
        if l.op == "elem" and l.a[0] == l0:
            if l.a[1] is s0:
                m[l] = el
            else:
                m[l] = mk("elem", el.a[0], l.a[1]) if el.op == "elem" else l
        elif l.op == "idx" and l.a[0] == l0:
            m[l] = ix
    # zip components
    if s0.op == "zip" and el.op == "tup":
        m[mk("elem", l0, s0.a[0])] = el.a[0]
        m[mk("elem", l0, s0.a[1])] = el.a[1]
    return subst(body, m) if m else body


def simp_top(t, pc):
    if t.op == "case":
        return simp(t, pc)
    return t


def neg(a):
    if a.op == "k" and isinstance(a.a[0], int):
        return K(-a.a[0])
    if a.op == "neg":
        return a.a[0]
    return mk("neg", a)


def isbool(a):
    return is_bool_atom(a) or (a.op == "case" and all(l in (TRUE, FALSE, BOT) or is_bool_atom(l) for l in leaves(a)))


def regbool(v):
    if v.op == "case":
        for l in leaves(v):
            regbool(l)
    elif v.op not in ("k", "bot", "ref"):
        BOOLS.add(v)


def arith(o, a, b):
    if o == "Add":
        return add(a, b)
    if a.op == "k" and b.op == "k" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
        if o == "Sub": return K(a.a[0] - b.a[0])
        if o == "Mul": return K(a.a[0] * b.a[0])
    if o == "Sub":
        if b is K(0): return a
        return mk("sub", a, b)
    if o == "Mul":
        if b < a: a, b = b, a
        return mk("mul", a, b)
    return mk("arith", o, a, b)
