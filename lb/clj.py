"""Reader and abstract evaluator for the Clojure client.

The evaluator interprets functions over abstract values: maps with known keys, sequences with a representative element, and opaque terms for what
comes from outside (the server's answers, plugins, the JVM).  A test of an opaque term forks the path."""
import os
from . import facts


# ---- reader -------------------------------------------------------------------------------------------------------------------------------------
class Sym(str):
    line = 0

    def __repr__(self):
        return "'" + str(self)


class Kw(str):
    def __repr__(self):
        return ":" + str(self)

    def __hash__(self):
        return hash((":", str(self)))

    def __eq__(self, o):
        return isinstance(o, Kw) and str(self) == str(o)

    def __ne__(self, o):
        return not self == o


class Lst(list):
    line = 0

    def __hash__(self):
        return id(self)


class Vec(list):
    line = 0

    def __hash__(self):
        return hash(("vec",) + tuple(map(key, self)))


class MapF(list):
    """map literal as list of pairs"""
    line = 0

    def __hash__(self):
        return id(self)


class SetF(list):
    line = 0

    def __hash__(self):
        return id(self)


class Regex(str):
    pass


class Char(str):
    pass


class ReadError(Exception):
    pass


DELIM = " \t\r\n,()[]{}\";"


class Reader:
    def __init__(self, text, ns=None):
        self.s, self.i, self.line = text, 0, 1
        self.ns, self.alias = ns, {}

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def skip(self):
        while self.i < len(self.s):
            c = self.s[self.i]
            if c == "\n":
                self.line += 1
                self.i += 1
            elif c in " \t\r,":
                self.i += 1
            elif c == ";":
                while self.i < len(self.s) and self.s[self.i] != "\n":
                    self.i += 1
            elif self.s.startswith("#_", self.i):
                self.i += 2
                self.read()
            elif self.s.startswith("#!", self.i):
                while self.i < len(self.s) and self.s[self.i] != "\n":
                    self.i += 1
            else:
                return

    def seq(self, end, cls):
        out = cls()
        out.line = self.line
        while True:
            self.skip()
            if self.i >= len(self.s):
                raise ReadError("unbalanced at line %d" % self.line)
            if self.s[self.i] == end:
                self.i += 1
                return out
            out.append(self.read())

    def wrap(self, name, *xs):
        out = Lst([Sym(name)] + list(xs))
        out.line = self.line
        return out

    def read(self):
        self.skip()
        c = self.peek()
        if c == "(":
            self.i += 1
            return self.seq(")", Lst)
        if c == "[":
            self.i += 1
            return self.seq("]", Vec)
        if c == "{":
            self.i += 1
            return self.pairs(self.seq("}", Lst))
        if c == '"':
            return self.string()
        if c == "'":
            self.i += 1
            return self.wrap("quote", self.read())
        if c == "`":
            self.i += 1
            return self.wrap("syntax-quote", self.read())
        if c == "~":
            self.i += 1
            if self.peek() == "@":
                self.i += 1
                return self.wrap("unquote-splicing", self.read())
            return self.wrap("unquote", self.read())
        if c == "@":
            self.i += 1
            return self.wrap("deref", self.read())
        if c == "^":
            self.i += 1
            self.read()
            return self.read()
        if c == "\\":
            j = self.i + 2
            while j < len(self.s) and self.s[j] not in DELIM:
                j += 1
            t = self.s[self.i + 1:j]
            self.i = j
            return Char({"newline": "\n", "space": " ", "tab": "\t", "return": "\r"}.get(t, t))
        if c == "#":
            d = self.s[self.i + 1]
            if d == "{":
                self.i += 2
                return self.seq("}", SetF)
            if d == '"':
                self.i += 1
                return Regex(self.string(raw=True))
            if d == "'":
                self.i += 2
                return self.wrap("var", self.read())
            if d == "(":
                self.i += 1
                body = self.read()
                args, rest = set(), [False]

                def walk(x):
                    if isinstance(x, Sym):
                        if x == "%" or x == "%1":
                            args.add(1)
                        elif x == "%&":
                            rest[0] = True
                        elif x.startswith("%") and x[1:].isdigit():
                            args.add(int(x[1:]))
                    elif isinstance(x, list):
                        for y in x:
                            walk(y)
                    elif isinstance(x, tuple):
                        for y in x:
                            walk(y)
                walk(body)
                ps = Vec(Sym("%%%d" % k) for k in range(1, max(args or {0}) + 1))
                if rest[0]:
                    ps += [Sym("&"), Sym("%&")]

                def ren(x):
                    if isinstance(x, Sym) and x == "%":
                        return Sym("%1")
                    if isinstance(x, list):
                        y = type(x)(ren(z) for z in x)
                        y.line = x.line
                        return y
                    if isinstance(x, tuple):
                        return tuple(ren(z) for z in x)
                    return x
                return self.wrap("fn*", ps, ren(body))
            if d == "?":
                raise ReadError("reader conditional")
            self.i += 1
            self.read()
            return self.read()
        j = self.i
        while j < len(self.s) and self.s[j] not in DELIM:
            j += 1
        t = self.s[self.i:j]
        if not t:
            raise ReadError("unexpected %r at line %d" % (c, self.line))
        self.i = j
        if t.startswith("::"):
            t = t[2:]
            if "/" in t:
                a, n = t.split("/", 1)
                return Kw("%s/%s" % (self.alias.get(a, a), n))
            return Kw("%s/%s" % (self.ns, t))
        if t.startswith(":"):
            return Kw(t[1:])
        if t in ("nil", "true", "false"):
            return {"nil": None, "true": True, "false": False}[t]
        u = t.lstrip("+-")
        if u and u[0].isdigit():
            try:
                return int(t)
            except ValueError:
                try:
                    return float(t.rstrip("MN"))
                except ValueError:
                    pass
        x = Sym(t)
        x.line = self.line
        return x

    def pairs(self, l):
        if len(l) % 2:
            raise ReadError("odd map at line %d" % l.line)
        out = MapF(zip(l[::2], l[1::2]))
        out.line = l.line
        return out

    def string(self, raw=False):
        i = self.i + 1
        out = []
        while i < len(self.s):
            c = self.s[i]
            if c == "\\":
                n = self.s[i + 1]
                out.append(c + n if raw else {"n": "\n", "t": "\t", "r": "\r"}.get(n, n))
                i += 2
                continue
            if c == '"':
                self.i = i + 1
                return "".join(out)
            if c == "\n":
                self.line += 1
            out.append(c)
            i += 1
        raise ReadError("unterminated string")


class Namespace:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        rd = Reader(self.text)
        self.forms = []
        self.alias, self.refer, self.defs, self.macros = {}, {}, {}, {}
        self.name = None
        while True:
            rd.skip()
            if rd.i >= len(rd.s):
                break
            f = rd.read()
            self.forms.append(f)
            if isinstance(f, Lst) and f and f[0] == "ns":
                self.name = str(f[1])
                rd.ns = self.name
                for c in f[2:]:
                    if isinstance(c, Lst) and c and c[0] == Kw("require"):
                        for r in c[1:]:
                            if isinstance(r, Vec):
                                o = dict(zip(r[1::2], r[2::2]))
                                if Kw("as") in o:
                                    self.alias[str(o[Kw("as")])] = str(r[0])
                                if isinstance(o.get(Kw("refer")), list):
                                    for x in o[Kw("refer")]:
                                        self.refer[str(x)] = str(r[0])
                rd.alias = self.alias
            if isinstance(f, Lst) and len(f) > 1 and isinstance(f[0], Sym) and isinstance(f[1], Sym):
                if f[0] in ("def", "defn", "defn-", "defonce"):
                    self.defs[str(f[1])] = f
                elif f[0] == "defmacro":
                    self.macros[str(f[1])] = f


class Client:
    def __init__(self, root=None):
        root = root or os.path.join(facts.REPO, "clj", "src")
        self.ns = {}
        self.bad = []
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".clj", ".cljc")):
                    try:
                        n = Namespace(os.path.join(d, f))
                    except (ReadError, IndexError) as e:
                        self.bad.append((os.path.join(d, f), str(e)))
                        continue
                    if n.name:
                        self.ns[n.name] = n
        if not self.ns:
            raise facts.CannotDecide("no Clojure client found at %s" % root)

    def find(self, name, prefer=None):
        """(namespace, definition) of a function by its name"""
        out = [(n, n.defs[name]) for n in self.ns.values() if name in n.defs]
        if prefer:
            out.sort(key=lambda x: prefer not in x[0].name)
        return out


IDS = {}


def intern(k):
    return IDS.setdefault(k, len(IDS))


# ---- values -------------------------------------------------------------------------------------------------------------------------------------
class T:
    """opaque value"""
    __slots__ = ("op", "a", "_h")

    def __init__(self, op, *a):
        self.op, self.a = op, a
        self._h = intern(("T", op) + tuple(map(key, a)))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, T) and self._h == o._h

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(show, self.a)))


class CMap:
    """map with known entries d, over an opaque base or nothing"""
    __slots__ = ("d", "base", "_h")

    def __init__(self, d=None, base=None):
        self.d, self.base = dict(d or {}), base

    def __repr__(self):
        return "{%s}%s" % (", ".join("%s %s" % (show(k), show(v)) for k, v in self.d.items()), "" if self.base is None else "+" + show(self.base))

    def k(self):
        return ("map", tuple(sorted((repr(k), key(v)) for k, v in self.d.items())), key(self.base))

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = intern(self.k())
            return self._h

    def __eq__(self, o):
        return isinstance(o, CMap) and hash(self) == hash(o)





class CSet(frozenset):
    pass


class Fn:
    def __init__(self, name, arities, env, ns):
        self.name, self.arities, self.env, self.ns = name, arities, env, ns

    def __repr__(self):
        return "#%s" % self.name


class Prim:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "#%s" % self.name


class Seq:
    """what a chain of transformations makes of the elements of an opaque sequence: steps as (op, value of the representative element or test)"""
    __slots__ = ("src", "steps", "elem", "_h")

    def __init__(self, src, steps, elem):
        self.src, self.steps, self.elem = src, tuple(steps), elem

    def __repr__(self):
        return "seq(%s: %s -> %s)" % (show(self.src), ", ".join("%s" % (s[0],) for s in self.steps), show(self.elem))

    def k(self):
        return ("seq", key(self.src), tuple((s[0], key(s[1])) for s in self.steps), key(self.elem))

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = intern(self.k())
            return self._h

    def __eq__(self, o):
        return isinstance(o, Seq) and hash(self) == hash(o)


class Alt:
    """alternatives of the value of a representative element: ((decisions, value), ...)"""
    __slots__ = ("alts", "_h")

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "one of " + " | ".join(sorted({show(v) for _, v in self.alts}))

    def k(self):
        return ("alt", tuple((tuple((key(t), b) for t, b in c), key(v)) for c, v in self.alts))

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = intern(self.k())
            return self._h

    def __eq__(self, o):
        return isinstance(o, Alt) and hash(self) == hash(o)


class XF:
    def __init__(self, steps):
        self.steps = list(steps)      # (op, fn)

    def __repr__(self):
        return "xf[%s]" % ", ".join("%s %s" % (o, show(f)) for o, f in self.steps)


def key(x):
    """a number that is the same for equal values"""
    if isinstance(x, (T, CMap, Seq, Alt)):
        return hash(x)
    if isinstance(x, Kw):
        return intern((":", str(x)))
    if isinstance(x, Sym):
        return intern(("sym", str(x)))
    if isinstance(x, (Lst, Vec)):
        return intern(("vec", tuple(map(key, x))))
    if isinstance(x, tuple):
        return intern(("tup", tuple(map(key, x))))
    if isinstance(x, (Fn, Prim)):
        return intern(("fn", repr(x)))
    if isinstance(x, XF):
        return intern(("xf", tuple((o, key(f)) for o, f in x.steps)))
    try:
        return intern(("c", type(x).__name__, x))
    except TypeError:
        return intern(("r", repr(x)))


def show(x, n=160):
    if isinstance(x, str) and not isinstance(x, (Kw, Sym)):
        s = '"%s"' % x
    elif x is None:
        s = "nil"
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + "…"


GONE = T("gone")


class Thrown(Exception):
    def __init__(self, value):
        self.value = value


class Stop(Exception):
    """path too deep or construct outside the evaluator"""


def fkey(f):
    """a function with what it closes over"""
    if isinstance(f, Fn):
        out, e = [], f.env
        while e is not None:
            out += [(n, fkey(v)) for n, v in e.d.items() if v is not f]
            e = e.up
        return (f.name, tuple(id(a[0]) for a in f.arities), tuple(out))
    if isinstance(f, Prim):
        return (f.name, f.f)
    return key(f)


class Env:
    def __init__(self, up=None):
        self.d, self.up = {}, up

    def get(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.up
        raise KeyError(n)

    def has(self, n):
        try:
            self.get(n)
            return True
        except KeyError:
            return False


class Eval:
    """all paths of an expression"""

    def __init__(self, client, extern=None, opaque=(), limit=4000):
        self.c, self.extern, self.opaque, self.limit = client, extern or {}, set(opaque), limit
        self.prims = prims()
        self.forms = {}
        self.memo, self.dep = {}, {}
        self.unknown = set()

    def paths(self, f, cut=None):
        """f(self) evaluated along every path: [(decisions, trace, result or Thrown)]"""
        out, todo = [], [[]]
        while todo:
            pre = todo.pop()
            self.pre, self.order, self.seen, self.trace, self.n, self.depth, self.steps, self.gens = pre, [], {}, [], {}, 0, 0, 0
            try:
                v = f(self)
            except Thrown as e:
                v = e
            out.append((list(self.order), list(self.trace), v))
            for i in range(len(pre), len(self.order)):
                todo.append([b for _, b in self.order[:i]] + [not self.order[i][1]])
            if len(out) > self.limit:
                raise Stop("too many paths")
        return out

    def each(self, f, *xs):
        """what a function makes of the representative element of a sequence: one value, or the alternatives with their conditions"""
        mk = (fkey(f),) + tuple(map(key, xs))
        for deps, out, traces in self.memo.get(mk, ()):
            if all(self.seen.get(k) == v for k, v in deps.items()):
                for k in deps:
                    self.dep.setdefault(k, self.seen.get(k))
                self.trace += traces
                return out
        keep = (self.pre, self.order, self.seen, self.n, self.steps)
        outer, self.dep = self.dep, {}
        alts, todo, traces = [], [[]], []
        while todo:
            pre = todo.pop()
            self.pre, self.order, self.seen, self.n, self.steps = pre, [], dict(keep[2]), dict(keep[3]), 0
            t0 = len(self.trace)
            try:
                v = self.call(f, list(xs))
            except Thrown as e:
                v = T("thrown", e.value)
            for i in range(len(pre), len(self.order)):
                todo.append([b for _, b in self.order[:i]] + [not self.order[i][1]])
            alts.append((tuple(self.order), v))
            for t in self.trace[t0:]:
                if t not in traces:
                    traces.append(t)
            del self.trace[t0:]
            if len(alts) > 2000:
                raise Stop("too many cases of an element")
        self.pre, self.order, self.seen, self.n = keep[:4]
        self.trace += traces
        out = alts[0][1] if len({key(v) for _, v in alts}) == 1 else Alt(alts)
        deps = {k: keep[2].get(k) for k in self.dep}
        self.memo.setdefault(mk, []).append((deps, out, traces))
        self.dep = outer
        for k, v in deps.items():
            self.dep.setdefault(k, v)
        return out

    # -- decisions
    def ask(self, t):
        k = key(t)
        self.dep[k] = None
        if k in self.seen:
            return self.seen[k]
        i = len(self.order)
        b = self.pre[i] if i < len(self.pre) else True
        self.order.append((t, b))
        self.seen[k] = b
        return b

    def known(self, t):
        k = key(t)
        self.dep[k] = None
        return self.seen.get(k)

    def pick(self, v):
        """decide between the alternatives of an element"""
        for c, x in v.alts:
            if all(self.known(t) in (None, b) for t, b in c) and all(self.ask(t) == b for t, b in c):
                return self.pick(x) if isinstance(x, Alt) else x
        raise Stop("no alternative left")

    def truth(self, v):
        if isinstance(v, Alt):
            v = self.pick(v)
        if v is None or v is False:
            return False
        if isinstance(v, T):
            if v.op in ("not",):
                return not self.truth(v.a[0])
            if v.op in ("fresh", "string", "some"):
                return True
            return self.ask(v)
        return True

    # -- evaluation
    def eval(self, f, env, ns):
        self.steps += 1
        if self.steps > 60000:
            raise Stop("evaluation does not end")
        if isinstance(f, Sym):
            return self.symbol(f, env, ns)
        if isinstance(f, Lst):
            if not f:
                return Lst()
            return self.form(f, env, ns)
        if isinstance(f, Vec):
            return Vec(self.eval(x, env, ns) for x in f)
        if isinstance(f, MapF):
            return CMap({hk(self.eval(k, env, ns)): self.eval(v, env, ns) for k, v in f})
        if isinstance(f, SetF):
            return CSet(hk(self.eval(x, env, ns)) for x in f)
        return f

    def symbol(self, s, env, ns):
        n = str(s)
        try:
            return env.get(n)
        except KeyError:
            pass
        full = self.resolve(n, ns)
        if full in self.extern:
            return Prim(full, lambda E, a, full=full: E.extern[full](E, a))
        if full in self.opaque:
            return T("var", full)
        m, _, d = full.rpartition("/")
        if m in self.c.ns and d in self.c.ns[m].defs:
            return self.define(self.c.ns[m], d)
        core = full.split("/", 1)[1] if full.startswith("clojure.core/") else full
        if core in self.prims:
            return Prim(core, self.prims[core])
        return T("var", full if "/" in full or "." in full else n)

    def resolve(self, n, ns):
        if n == "/":
            return "clojure.core//"
        if "/" in n:
            a, x = n.split("/", 1)
            return "%s/%s" % (ns.alias.get(a, a), x)
        if n in ns.refer:
            return "%s/%s" % (ns.refer[n], n)
        if n in ns.defs or n in ns.macros:
            return "%s/%s" % (ns.name, n)
        if n in self.prims:
            return "clojure.core/%s" % n
        return n

    def define(self, ns, d):
        f = ns.defs[d]
        if f[0] in ("def", "defonce"):
            return self.eval(f[-1], Env(), ns) if len(f) > 2 else None
        return self.mkfn("%s/%s" % (ns.name, d), [x for x in f[2:]], Env(), ns)

    def mkfn(self, name, body, env, ns):
        body = list(body)
        while body and isinstance(body[0], (str, MapF)) and not isinstance(body[0], (Sym, Kw)) and len(body) > 1:
            body = body[1:]
        if body and isinstance(body[0], Vec):
            ar = [(body[0], body[1:])]
        else:
            ar = [(x[0], list(x[1:])) for x in body if isinstance(x, Lst) and x and isinstance(x[0], Vec)]
        return Fn(name, ar, env, ns)

    def body(self, fs, env, ns):
        v = None
        for x in fs:
            v = self.eval(x, env, ns)
        return v

    def form(self, f, env, ns):
        h = f[0]
        if isinstance(h, Sym) and not env.has(str(h)):
            n = str(h)
            n = n.split("/", 1)[1] if n.startswith("clojure.core/") else n
            m = getattr(self, "f_" + MANGLE.get(n, n.replace("-", "_").replace("*", "_star").replace("?", "_q").replace("!", "_b")), None)
            if m is not None and str(h) not in ns.defs and str(h) not in ns.macros:
                return m(f, env, ns)
            full = self.resolve(str(h), ns)
            q, _, d = full.rpartition("/")
            if q in self.c.ns and d in self.c.ns[q].macros:
                mac = self.c.ns[q]
                fn = self.mkfn(full, list(mac.macros[d][2:]), Env(), mac)
                return self.eval(self.call(fn, list(f[1:]), f), env, ns)
            if n.startswith(".") and len(n) > 1 and not n.startswith(".."):
                return self.external(n, [self.eval(x, env, ns) for x in f[1:]], f)
            if n.endswith(".") and len(n) > 1:
                return self.external("new " + n[:-1], [self.eval(x, env, ns) for x in f[1:]], f)
        fn = self.eval(h, env, ns)
        return self.call(fn, [self.eval(x, env, ns) for x in f[1:]], f)

    def external(self, name, args, f):
        if name in self.extern:
            return self.extern[name](self, args)
        self.unknown.add(name)
        i = self.n[name] = self.n.get(name, 0) + 1
        self.trace.append((name, args, getattr(f, "line", 0)))
        return T("call", name, tuple(args), i)

    def call(self, fn, args, f=None):
        if isinstance(fn, Prim):
            return fn.f(self, args)
        if isinstance(fn, Fn):
            if self.depth > 60:
                raise Stop("recursion")
            for ps, body in fn.arities:
                names = list(ps)
                if "&" in [str(p) for p in names if isinstance(p, Sym)]:
                    i = [str(p) if isinstance(p, Sym) else "" for p in names].index("&")
                    if len(args) < i:
                        continue
                    env = Env(fn.env)
                    for p, a in zip(names[:i], args):
                        self.bind(p, a, env, fn.ns)
                    self.bind(names[i + 1], Lst(args[i:]) if args[i:] else None, env, fn.ns)
                elif len(names) == len(args):
                    env = Env(fn.env)
                    for p, a in zip(names, args):
                        self.bind(p, a, env, fn.ns)
                else:
                    continue
                self.depth += 1
                try:
                    return self.body(body, env, fn.ns)
                finally:
                    self.depth -= 1
            raise Stop("%s called with %d arguments" % (fn.name, len(args)))
        if isinstance(fn, Kw):
            v = get(self, args[0], fn)
            if len(args) > 1 and v is None:
                return args[1]
            return v
        if isinstance(fn, CMap):
            return get(self, fn, args[0], args[1] if len(args) > 1 else None)
        if isinstance(fn, (CSet, frozenset)):
            if isinstance(args[0], T):
                return args[0] if self.ask(T("in", args[0], tuple(sorted(fn, key=repr)))) else None
            return args[0] if hk(args[0]) in fn else None
        if isinstance(fn, T):
            if fn.op == "var":
                return self.external(fn.a[0], args, f)
            i = self.n[fn] = self.n.get(fn, 0) + 1
            self.trace.append((fn, args, getattr(f, "line", 0)))
            return T("call", fn, tuple(args), i)
        if isinstance(fn, XF):
            return T("call", T("xf"), tuple(args), 0)
        raise Stop("call of %s" % show(fn))

    def bind(self, p, v, env, ns):
        if isinstance(p, Sym):
            env.d[str(p)] = v
            return
        if isinstance(p, Vec):
            i, n = 0, 0
            while i < len(p):
                if isinstance(p[i], Sym) and p[i] == "&":
                    self.bind(p[i + 1], rest(self, v, n), env, ns)
                    i += 2
                elif isinstance(p[i], Kw) and p[i] == Kw("as"):
                    self.bind(p[i + 1], v, env, ns)
                    i += 2
                else:
                    self.bind(p[i], nth(self, v, n), env, ns)
                    n += 1
                    i += 1
            return
        if isinstance(p, MapF):
            orr = {}
            for k, x in p:
                if k == Kw("or"):
                    orr = {str(a): b for a, b in x}
            for k, x in p:
                if isinstance(k, Kw) and str(k).split("/")[-1] in ("keys", "strs", "syms"):
                    pre = str(k)[:-4]
                    for s in x:
                        nm = str(s).split("/")[-1]
                        kk = Kw(pre + str(s)) if str(k).endswith("keys") else str(s)
                        d = self.eval(orr[nm], env, ns) if nm in orr else None
                        env.d[nm] = get(self, v, kk, d)
                elif k == Kw("as"):
                    env.d[str(x)] = v
                elif k == Kw("or"):
                    pass
                else:
                    d = self.eval(orr[str(k)], env, ns) if isinstance(k, Sym) and str(k) in orr else None
                    self.bind(k, get(self, v, self.eval(x, env, ns), d), env, ns)
            return
        raise Stop("binding %s" % show(p))

    # -- special forms and macros
    def f_quote(self, f, env, ns):
        return f[1]

    def f_syntax_quote(self, f, env, ns):
        gs = {}

        def w(x):
            if isinstance(x, Sym):
                if x.endswith("#"):
                    if x not in gs:
                        self.gens += 1
                        gs[x] = Sym("%s__%d" % (x[:-1], self.gens))
                    return gs[x]
                return x
            if isinstance(x, Lst) and x and x[0] == "unquote" and isinstance(x[0], Sym):
                return self.eval(x[1], env, ns)
            if isinstance(x, MapF):
                return MapF((w(a), w(b)) for a, b in x)
            if isinstance(x, (Lst, Vec, SetF)):
                out = type(x)()
                out.line = x.line
                for y in x:
                    if isinstance(y, Lst) and y and isinstance(y[0], Sym) and y[0] == "unquote-splicing":
                        z = self.eval(y[1], env, ns)
                        out.extend(z or [])
                    else:
                        out.append(w(y))
                return out
            return x
        return w(f[1])

    def f_var(self, f, env, ns):
        return self.eval(f[1], env, ns)

    def f_do(self, f, env, ns):
        return self.body(f[1:], env, ns)

    def f_fn(self, f, env, ns):
        b = list(f[1:])
        name = "fn"
        if b and isinstance(b[0], Sym):
            name = str(b[0])
            b = b[1:]
        fn = self.mkfn("%s:%d" % (name, f.line), b, Env(env), ns)
        if name != "fn":
            fn.env.d[name] = fn
        return fn
    f_fn_star = f_fn

    def f_let(self, f, env, ns):
        e = Env(env)
        for p, x in zip(f[1][::2], f[1][1::2]):
            self.bind(p, self.eval(x, e, ns), e, ns)
        return self.body(f[2:], e, ns)
    f_let_star = f_let

    def f_if(self, f, env, ns):
        if self.truth(self.eval(f[1], env, ns)):
            return self.eval(f[2], env, ns)
        return self.eval(f[3], env, ns) if len(f) > 3 else None

    def f_if_not(self, f, env, ns):
        if not self.truth(self.eval(f[1], env, ns)):
            return self.eval(f[2], env, ns)
        return self.eval(f[3], env, ns) if len(f) > 3 else None

    def f_when(self, f, env, ns):
        return self.body(f[2:], env, ns) if self.truth(self.eval(f[1], env, ns)) else None

    def f_when_not(self, f, env, ns):
        return None if self.truth(self.eval(f[1], env, ns)) else self.body(f[2:], env, ns)

    def f_if_let(self, f, env, ns):
        v = self.eval(f[1][1], env, ns)
        if self.truth(v):
            e = Env(env)
            self.bind(f[1][0], v, e, ns)
            return self.eval(f[2], e, ns)
        return self.eval(f[3], env, ns) if len(f) > 3 else None

    def f_if_some(self, f, env, ns):
        v = self.eval(f[1][1], env, ns)
        if not is_nil(self, v):
            e = Env(env)
            self.bind(f[1][0], v, e, ns)
            return self.eval(f[2], e, ns)
        return self.eval(f[3], env, ns) if len(f) > 3 else None

    def f_when_let(self, f, env, ns):
        v = self.eval(f[1][1], env, ns)
        if self.truth(v):
            e = Env(env)
            self.bind(f[1][0], v, e, ns)
            return self.body(f[2:], e, ns)
        return None

    def f_when_some(self, f, env, ns):
        v = self.eval(f[1][1], env, ns)
        if not is_nil(self, v):
            e = Env(env)
            self.bind(f[1][0], v, e, ns)
            return self.body(f[2:], e, ns)
        return None

    def f_cond(self, f, env, ns):
        for t, x in zip(f[1::2], f[2::2]):
            if (isinstance(t, Kw)) or self.truth(self.eval(t, env, ns)):
                return self.eval(x, env, ns)
        return None

    def f_condp(self, f, env, ns):
        p, e = self.eval(f[1], env, ns), self.eval(f[2], env, ns)
        cl = f[3:]
        i = 0
        while i + 1 < len(cl):
            if cl[i + 1] == Kw(">>"):
                r = self.call(p, [self.eval(cl[i], env, ns), e])
                if self.truth(r):
                    return self.call(self.eval(cl[i + 2], env, ns), [r])
                i += 3
                continue
            if self.truth(self.call(p, [self.eval(cl[i], env, ns), e])):
                return self.eval(cl[i + 1], env, ns)
            i += 2
        if i < len(cl):
            return self.eval(cl[i], env, ns)
        raise Thrown(T("no matching clause"))

    def f_case(self, f, env, ns):
        v = self.eval(f[1], env, ns)
        cl = f[2:]
        for t, x in zip(cl[::2], cl[1::2]):
            for c in (t if isinstance(t, Lst) else [t]):
                if self.truth(equal(self, v, c)):
                    return self.eval(x, env, ns)
        if len(cl) % 2:
            return self.eval(cl[-1], env, ns)
        raise Thrown(T("no matching clause"))

    def thread(self, x, form, last):
        if isinstance(form, Lst) and not (form and form[0] in ("fn", "fn*") and isinstance(form[0], Sym)):
            out = Lst(list(form) + [x]) if last else Lst([form[0], x] + list(form[1:]))
        else:
            out = Lst([form, x])
        out.line = getattr(form, "line", 0)
        return out

    def f_threadf(self, f, env, ns):
        x = f[1]
        for g in f[2:]:
            x = self.thread(x, g, False)
        return self.eval(x, env, ns)

    def f_threadl(self, f, env, ns):
        x = f[1]
        for g in f[2:]:
            x = self.thread(x, g, True)
        return self.eval(x, env, ns)

    def held(self, v, env):
        self.gens += 1
        n = Sym("held__%d" % self.gens)
        e = Env(env)
        e.d[str(n)] = v
        return n, e

    def f_condf(self, f, env, ns, last=False):
        v = self.eval(f[1], env, ns)
        for t, g in zip(f[2::2], f[3::2]):
            if self.truth(self.eval(t, env, ns)):
                n, e = self.held(v, env)
                v = self.eval(self.thread(n, g, last), e, ns)
        return v

    def f_condl(self, f, env, ns):
        return self.f_condf(f, env, ns, True)

    def f_somef(self, f, env, ns, last=False):
        v = self.eval(f[1], env, ns)
        for g in f[2:]:
            if is_nil(self, v):
                return None
            n, e = self.held(v, env)
            v = self.eval(self.thread(n, g, last), e, ns)
        return v

    def f_somel(self, f, env, ns):
        return self.f_somef(f, env, ns, True)

    def f_as_thread(self, f, env, ns):
        v = self.eval(f[1], env, ns)
        for g in f[3:]:
            e = Env(env)
            self.bind(f[2], v, e, ns)
            v = self.eval(g, e, ns)
        return v

    def f_doto(self, f, env, ns):
        v = self.eval(f[1], env, ns)
        for g in f[2:]:
            n, e = self.held(v, env)
            self.eval(self.thread(n, g, False), e, ns)
        return v

    def f_and(self, f, env, ns):
        v = True
        for x in f[1:]:
            v = self.eval(x, env, ns)
            if not self.truth(v):
                return v if v is None or v is False else None if maybe_nil(v) else False
        return v

    def f_or(self, f, env, ns):
        v = None
        for x in f[1:]:
            v = self.eval(x, env, ns)
            if self.truth(v):
                return v
        return None if isinstance(v, T) else v

    def f_try(self, f, env, ns):
        body = [x for x in f[1:] if not (isinstance(x, Lst) and x and x[0] in ("catch", "finally") and isinstance(x[0], Sym))]
        catch = [x for x in f[1:] if isinstance(x, Lst) and x and x[0] == "catch" and isinstance(x[0], Sym)]
        fin = [x for x in f[1:] if isinstance(x, Lst) and x and x[0] == "finally" and isinstance(x[0], Sym)]
        k = T("throws", f.line, ns.name)
        try:
            n0 = len(self.trace)
            v = self.body(body, env, ns)
            if catch and len(self.trace) > n0 and not self.ask(T("completes", f.line, ns.name)):
                raise Thrown(k)
        except Thrown as e:
            if not catch:
                raise
            en = Env(env)
            self.bind(catch[0][2], e.value, en, ns)
            v = self.body(catch[0][3:], en, ns)
        finally:
            for x in fin:
                self.body(x[1:], env, ns)
        return v

    def f_throw(self, f, env, ns):
        raise Thrown(self.eval(f[1], env, ns))

    def f_binding(self, f, env, ns):
        e = Env(env)
        for p, x in zip(f[1][::2], f[1][1::2]):
            e.d[str(p)] = self.eval(x, env, ns)
            self.trace.append(("binding", [self.resolve(str(p), ns), e.d[str(p)]], f.line))
        v = self.body(f[2:], e, ns)
        for p in f[1][::2]:
            self.trace.append(("unbinding", [self.resolve(str(p), ns)], f.line))
        return v

    def f_doseq(self, f, env, ns):
        e = Env(env)
        for p, x in zip(f[1][::2], f[1][1::2]):
            if isinstance(p, Kw):
                continue
            v = self.eval(x, e, ns)
            if isinstance(v, (Vec, Lst)):
                for y in v:
                    self.bind(p, y, e, ns)
                    self.body(f[2:], e, ns)
                return None
            if v is None:
                return None
            self.bind(p, elem(self, v), e, ns)
        self.trace.append(("each", [self.eval(f[1][1], env, ns)], f.line))
        self.body(f[2:], e, ns)
        self.trace.append(("end each", [], f.line))
        return None

    def f_comment(self, f, env, ns):
        return None

    def f_locking(self, f, env, ns):
        return self.body(f[2:], env, ns)

    def f_with_out_str(self, f, env, ns):
        self.body(f[1:], env, ns)
        return T("fresh", "text", f.line)

    def f_for(self, f, env, ns):
        p, x, rest = f[1][0], f[1][1], list(f[1][2:])

        def form(*a):
            l = Lst(a)
            l.line = f.line
            return l

        def inner(rest):
            """(form, is it a list of results)"""
            if not rest:
                return form(Sym("do"), *f[2:]), False
            if rest[0] == Kw("let"):
                b, many = inner(rest[2:])
                return form(Sym("let"), rest[1], b), many
            if rest[0] == Kw("when"):
                b, many = inner(rest[2:])
                return form(Sym("if"), rest[1], b if many else Vec([b]), Vec()), True
            if isinstance(rest[0], Kw):
                raise Stop("for with %s" % show(rest[0]))
            return form(Sym("for"), Vec(rest), *f[2:]), True
        if id(f) not in self.forms:
            while rest and rest[0] == Kw("when"):
                x = form(Sym("filter"), form(Sym("fn"), Vec([p]), rest[1]), x)
                rest = rest[2:]
            b, many = inner(rest)
            self.forms[id(f)] = form(Sym("fn"), Vec([p]), b), many, x, f
        fn, many, x, _ = self.forms[id(f)]
        fn = self.eval(fn, env, ns)
        return self.prims["mapcat" if many else "map"](self, [fn, self.eval(x, env, ns)])

    def f_loop(self, f, env, ns):
        raise Stop("loop at line %d" % f.line)

    def f_deref(self, f, env, ns):
        return T("deref", self.eval(f[1], env, ns))


MANGLE = {"->": "threadf", "->>": "threadl", "cond->": "condf", "cond->>": "condl", "some->": "somef", "some->>": "somel", "as->": "as_thread"}


def hk(x):
    return tuple(map(hk, x)) if isinstance(x, (Vec, Lst)) else x


def maybe_nil(v):
    return not (isinstance(v, T) and v.op in ("=", "map?", "string?", "contains?", "nil?"))


def is_nil(E, v):
    if v is None:
        return True
    if isinstance(v, Alt):
        return is_nil(E, E.pick(v))
    if isinstance(v, T) and v.op not in ("fresh", "string", "some"):
        return E.ask(T("nil?", v))
    return False


def get(E, m, k, d=None):
    if isinstance(m, Alt):
        vs = [(c, get(E, v, k, d)) for c, v in m.alts]
        return vs[0][1] if len({key(v) for _, v in vs}) == 1 else Alt(vs)
    if m is None:
        return d
    if isinstance(m, CMap):
        if hk(k) in m.d:
            v = m.d[hk(k)]
            return d if v is GONE else v
        return d if m.base is None else get(E, m.base, k, d)
    if isinstance(m, (Vec, Lst)):
        if isinstance(k, int) and not isinstance(k, bool):
            return m[k] if 0 <= k < len(m) else d
        if isinstance(k, T):
            return T("get", m, k)
        return d
    if isinstance(m, (CSet, frozenset)):
        return k if hk(k) in m else d
    if isinstance(m, Seq):
        if isinstance(k, Kw):
            return d
        return T("nth", m, k)
    if isinstance(m, T):
        if m.op in ("string", "number") or E.known(m) is False:
            return d
        if m.op == "elem" and isinstance(m.a[0], Seq):
            return get(E, m.a[0].elem, k, d)
        t = T("get", m, k)
        if d is not None:
            return t if E.truth(T("contains?", m, k)) else d
        return t
    return d


def put(m, k, v):
    if m is None:
        return CMap({hk(k): v})
    if isinstance(m, CMap):
        d = dict(m.d)
        d[hk(k)] = v
        return CMap(d, m.base)
    if isinstance(m, Alt):
        return Alt((c, put(x, k, v)) for c, x in m.alts)
    if isinstance(m, (T, Seq)):
        return CMap({hk(k): v}, m)
    if isinstance(m, Vec) and isinstance(k, int):
        out = Vec(m)
        if k < len(out):
            out[k] = v
        else:
            out.append(v)
        return out
    raise Stop("assoc on %s" % show(m))


def get_in(E, m, ks):
    for k in ks:
        m = get(E, m, k)
    return m


def put_in(E, m, ks, v):
    k = ks[0]
    if len(ks) == 1:
        return put(m, k, v)
    return put(m, k, put_in(E, get(E, m, k), ks[1:], v))


def nth(E, v, n):
    if v is None:
        return None
    if isinstance(v, (Vec, Lst, tuple)):
        return v[n] if n < len(v) else None
    return T("nth", v, n)


def rest(E, v, n):
    if v is None:
        return None
    if isinstance(v, (Vec, Lst, tuple)):
        return Lst(v[n:])
    return T("rest", v, n)


def elem(E, v):
    if isinstance(v, Seq):
        return v.elem
    return T("elem", v)


def chain(v, op, x, f=None):
    """f is kept beside the value of a test"""
    st = (op, x) if f is None or op not in ("filter", "keep", "remove") else (op, x, f)
    if isinstance(v, Seq):
        return Seq(v.src, v.steps + (st,), x if op in ("map", "keep", "mapcat") else v.elem)
    return Seq(v, (st,), x if op in ("map", "keep", "mapcat") else T("elem", v))


def over(E, op, f, v):
    if v is None:
        return Lst()
    if isinstance(v, CMap) and v.base is None:
        v = Lst(Vec([k, x]) for k, x in v.d.items() if x is not GONE)
    if isinstance(v, (CSet,)):
        v = Lst(sorted(v, key=repr))
    if isinstance(v, (Vec, Lst)):
        out = Lst()
        for y in v:
            r = E.call(f, [y])
            if op == "map":
                out.append(r)
            elif op == "keep":
                if not is_nil(E, r):
                    out.append(r)
            elif op == "filter":
                if E.truth(r):
                    out.append(y)
            elif op == "remove":
                if not E.truth(r):
                    out.append(y)
            elif op == "mapcat":
                if isinstance(r, (Vec, Lst)):
                    out.extend(r)
                elif r is not None:
                    return chain(T("each", v), op, r)
        return out
    return chain(v, op, E.each(f, elem(E, v)), f)


def apply_xf(E, xf, v):
    if isinstance(xf, XF):
        for op, f in xf.steps:
            v = over(E, op, f, v) if op in ("map", "filter", "remove", "keep", "mapcat") else Seq(v, ((op, f),), T("elem", T("xf", v)))
        return v
    return Seq(v, (("xf", xf),), T("elem", T("xf", xf, v)))


def equal(E, x, y):
    if isinstance(x, (T, Seq, Alt)) or isinstance(y, (T, Seq, Alt)):
        if key(x) == key(y):
            return True
        for a, b in ((x, y), (y, x)):
            if isinstance(a, T) and a.op in ("string", "number", "fresh") and not isinstance(b, T):
                if a.op == "string" and isinstance(b, str) and not isinstance(b, (Kw, Sym)):
                    break
                return False
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Alt):
                return equal(E, E.pick(a), b)
        if not isinstance(x, (T, Seq)):
            x, y = y, x
        return T("=", x, y)
    return key(x) == key(y)


def kind_test(name, f, shapes):
    def g(E, a):
        x = a[0]
        if isinstance(x, T):
            if x.op in shapes:
                return shapes[x.op]
            return T(name, x)
        return f(x)
    return g


def seq_of(E, v):
    if v is None:
        return None
    if isinstance(v, (Vec, Lst, CSet, str)) and not isinstance(v, Kw):
        return Lst(v) if v else None
    if isinstance(v, CMap) and v.base is None:
        return Lst(Vec([k, x]) for k, x in v.d.items()) or None
    if E.truth(T("nonempty", v)):
        E.seen[key(v)] = True
        return v
    return None


def prims():
    P = {}

    def d(*ns):
        def g(f):
            for n in ns:
                P[n] = f
            return f
        return g

    P["get"] = lambda E, a: get(E, a[0], a[1], a[2] if len(a) > 2 else None)
    P["get-in"] = lambda E, a: get_in(E, a[0], a[1])
    P["assoc-in"] = lambda E, a: put_in(E, a[0], list(a[1]), a[2])
    P["update-in"] = lambda E, a: put_in(E, a[0], list(a[1]), E.call(a[2], [get_in(E, a[0], a[1])] + list(a[3:])))
    P["update"] = lambda E, a: put(a[0], a[1], E.call(a[2], [get(E, a[0], a[1])] + list(a[3:])))

    @d("assoc", "assoc!")
    def assoc(E, a):
        m = a[0]
        for k, v in zip(a[1::2], a[2::2]):
            m = put(m, k, v)
        return m

    @d("dissoc")
    def dissoc(E, a):
        m = a[0]
        for k in a[1:]:
            m = put(m, k, GONE)
        return m

    @d("select-keys")
    def select(E, a):
        out = {}
        for k in a[1]:
            v = get(E, a[0], k)
            if v is None:
                continue
            out[hk(k)] = v if not isinstance(v, T) or isinstance(a[0], CMap) and hk(k) in a[0].d else T("member", v)
        return CMap(out)

    @d("merge")
    def merge(E, a):
        m = a[0]
        for x in a[1:]:
            if x is None:
                continue
            if isinstance(x, CMap) and x.base is None:
                for k, v in x.d.items():
                    m = put(m, k, v)
            elif m is None:
                m = x
            else:
                m = T("merge", m, x)
        return m

    @d("contains?")
    def contains(E, a):
        m = a[0]
        if isinstance(m, CMap):
            if hk(a[1]) in m.d:
                return m.d[hk(a[1])] is not GONE
            return False if m.base is None else T("contains?", m.base, a[1])
        if isinstance(m, (CSet,)):
            return T("in", a[1], tuple(sorted(m, key=repr))) if isinstance(a[1], T) else hk(a[1]) in m
        if m is None:
            return False
        return T("contains?", m, a[1])

    for op in ("map", "filter", "keep", "remove", "mapcat"):
        def g(E, a, op=op):
            if len(a) == 1:
                return XF([(op, a[0])])
            if len(a) > 2:
                if all(isinstance(x, (Vec, Lst)) for x in a[1:]):
                    return Lst(E.call(a[0], list(t)) for t in zip(*a[1:]))
                return Seq(a[1], (("zip", tuple(a[2:])),), E.call(a[0], [elem(E, x) for x in a[1:]]))
            return over(E, op, a[0], a[1])
        P[op] = g
    P["mapv"] = lambda E, a: vec(E, P["map"](E, a))
    P["filterv"] = lambda E, a: vec(E, P["filter"](E, a))

    def vec(E, v):
        return Vec(v) if isinstance(v, (Lst, Vec)) else Vec() if v is None else v
    P["vec"] = lambda E, a: vec(E, a[0])
    P["doall"] = P["dorun"] = P["sequence"] = lambda E, a: a[-1] if len(a) == 1 else apply_xf(E, a[0], a[-1])
    P["eduction"] = lambda E, a: apply_xf(E, a[0], a[-1])
    P["seq"] = lambda E, a: seq_of(E, a[0])
    P["not-empty"] = lambda E, a: a[0] if seq_of(E, a[0]) is not None else None
    P["empty?"] = lambda E, a: seq_of(E, a[0]) is None
    P["boolean"] = lambda E, a: E.truth(a[0])
    P["not"] = lambda E, a: not E.truth(a[0])
    P["nil?"] = lambda E, a: is_nil(E, a[0])
    P["some?"] = lambda E, a: not is_nil(E, a[0])
    P["identity"] = lambda E, a: a[0]
    P["constantly"] = lambda E, a: Prim("constantly", lambda E2, b: a[0])
    P["partial"] = lambda E, a: Prim("partial", lambda E2, b: E2.call(a[0], list(a[1:]) + list(b)))
    P["complement"] = lambda E, a: Prim("complement", lambda E2, b: not E2.truth(E2.call(a[0], b)))
    P["first"] = lambda E, a: (a[0][0] if a[0] else None) if isinstance(a[0], (Vec, Lst)) else None if a[0] is None else T("nth", a[0], 0)
    P["second"] = lambda E, a: nth(E, a[0], 1)
    P["nth"] = lambda E, a: nth(E, a[0], a[1])
    P["rest"] = lambda E, a: rest(E, a[0], 1) if a[0] is not None else Lst()
    P["next"] = lambda E, a: (Lst(a[0][1:]) or None) if isinstance(a[0], (Vec, Lst)) else rest(E, a[0], 1)
    P["last"] = lambda E, a: (a[0][-1] if a[0] else None) if isinstance(a[0], (Vec, Lst)) else T("last", a[0])
    P["count"] = lambda E, a: len(a[0]) if isinstance(a[0], (Vec, Lst)) else 0 if a[0] is None else T("count", a[0])
    P["list"] = lambda E, a: Lst(a)
    P["vector"] = lambda E, a: Vec(a)
    P["set"] = lambda E, a: CSet(hk(x) for x in a[0]) if isinstance(a[0], (Vec, Lst)) else T("set", a[0])
    P["hash-map"] = P["array-map"] = lambda E, a: CMap({hk(k): v for k, v in zip(a[::2], a[1::2])})
    P["keys"] = lambda E, a: Lst(a[0].d) if isinstance(a[0], CMap) and a[0].base is None else T("keys", a[0])
    P["vals"] = lambda E, a: Lst(a[0].d.values()) if isinstance(a[0], CMap) and a[0].base is None else T("vals", a[0])
    P["="] = lambda E, a: all(E.truth(equal(E, x, y)) for x, y in zip(a, a[1:])) if len(a) > 2 else equal(E, a[0], a[1])
    P["not="] = lambda E, a: not E.truth(equal(E, a[0], a[1]))
    P["map?"] = kind_test("map?", lambda x: isinstance(x, CMap), {"string": False, "number": False})
    P["string?"] = kind_test("string?", lambda x: isinstance(x, str) and not isinstance(x, (Kw, Sym)), {"string": True, "number": False})
    P["keyword?"] = kind_test("keyword?", lambda x: isinstance(x, Kw), {"string": False, "number": False})
    P["vector?"] = kind_test("vector?", lambda x: isinstance(x, Vec), {"string": False})
    P["sequential?"] = kind_test("sequential?", lambda x: isinstance(x, (Vec, Lst)), {"string": False})
    P["coll?"] = kind_test("coll?", lambda x: isinstance(x, (Vec, Lst, CMap, CSet)), {"string": False})
    P["set?"] = kind_test("set?", lambda x: isinstance(x, CSet), {"string": False})
    P["number?"] = kind_test("number?", lambda x: isinstance(x, (int, float)), {"string": False, "number": True})

    def keyword(E, a):
        x = a[-1]
        if isinstance(x, Kw):
            return x
        if isinstance(x, str) and not isinstance(x, Sym):
            return Kw(x)
        if x is None or isinstance(x, (CMap, Vec, Lst, CSet, int, bool)):
            return None
        return T("keyword", x)
    P["keyword"] = keyword
    P["name"] = lambda E, a: str(a[0]) if isinstance(a[0], Kw) else a[0] if isinstance(a[0], str) else T("name", a[0])

    def st(E, a):
        if all(isinstance(x, (str, int)) and not isinstance(x, bool) or x is None for x in a):
            return "".join("" if x is None else ":" + x if isinstance(x, Kw) else str(x) for x in a)
        return T("str", *a)
    P["str"] = st
    P["format"] = lambda E, a: T("format", *a)
    P["inc"] = lambda E, a: a[0] + 1 if isinstance(a[0], int) else T("+", a[0], 1)
    P["dec"] = lambda E, a: a[0] - 1 if isinstance(a[0], int) else T("+", a[0], -1)
    P["+"] = lambda E, a: sum(a) if all(isinstance(x, int) for x in a) else T("+", *a)
    P["zero?"] = lambda E, a: a[0] == 0 if isinstance(a[0], int) else T("=", a[0], 0)
    P["pos?"] = lambda E, a: a[0] > 0 if isinstance(a[0], int) else T("pos?", a[0])

    @d("conj")
    def conj(E, a):
        if a[0] is None:
            return Lst(reversed(a[1:]))
        if isinstance(a[0], Vec):
            return Vec(list(a[0]) + list(a[1:]))
        if isinstance(a[0], CSet):
            return CSet(set(a[0]) | {hk(x) for x in a[1:]})
        if isinstance(a[0], Lst):
            return Lst(list(reversed(a[1:])) + list(a[0]))
        return T("conj", *a)

    @d("concat")
    def concat(E, a):
        if all(isinstance(x, (Vec, Lst)) or x is None for x in a):
            return Lst(y for x in a for y in (x or []))
        a = [x for x in a if x is not None and not (isinstance(x, (Vec, Lst)) and not x)]
        return a[0] if len(a) == 1 else T("concat", *a)

    @d("cons")
    def cons(E, a):
        return Lst([a[0]] + list(a[1] or [])) if isinstance(a[1], (Vec, Lst)) or a[1] is None else T("concat", Vec([a[0]]), a[1])

    @d("into")
    def into(E, a):
        to, v = a[0], a[-1]
        if len(a) == 3:
            v = apply_xf(E, a[1], v)
        if isinstance(to, (Vec, Lst)) and not to:
            return Vec(v) if isinstance(v, Lst) else v if v is not None else Vec()
        if isinstance(to, CMap) and isinstance(v, (Vec, Lst)):
            for x in v:
                if isinstance(x, (Vec, Lst)) and len(x) == 2:
                    to = put(to, x[0], x[1])
                else:
                    return T("into", to, v)
            return to
        if isinstance(to, CMap) and isinstance(v, CMap):
            return merge(E, [to, v])
        return T("into", to, v)

    @d("comp")
    def comp(E, a):
        if a and all(isinstance(x, XF) for x in a):
            return XF([s for x in a for s in x.steps])
        if len(a) == 1:
            return a[0]
        return T("comp", *a)

    @d("apply")
    def app(E, a):
        last = a[-1]
        if last is None:
            last = Lst()
        if isinstance(last, (Vec, Lst)):
            return E.call(a[0], list(a[1:-1]) + list(last))
        if isinstance(a[0], Prim) and a[0].name == "comp":
            return T("comp", *(list(a[1:-1]) + [T("splice", last)]))
        if isinstance(a[0], T):
            E.external(a[0].a[0] if a[0].op == "var" else repr(a[0]), list(a[1:-1]) + [T("splice", last)], None)
        return T("apply", a[0], *a[1:])

    @d("reduce")
    def reduce(E, a):
        f, v = a[0], a[-1]
        if v is None:
            v = Lst()
        if isinstance(v, (Vec, Lst)):
            v = list(v)
            acc = a[1] if len(a) == 3 else v.pop(0)
            for x in v:
                acc = E.call(f, [acc, x])
            return acc
        return T("reduce", f, *a[1:])

    @d("some")
    def some(E, a):
        v = a[1]
        if v is None or isinstance(v, T) and v.op == "json":
            return None
        if isinstance(v, (Vec, Lst)):
            for x in v:
                r = E.call(a[0], [x])
                if E.truth(r):
                    return r
            return None
        return T("any", v, a[0])

    @d("every?")
    def every(E, a):
        if isinstance(a[1], (Vec, Lst)):
            return all(E.truth(E.call(a[0], [x])) for x in a[1])
        return T("all", a[1], a[0])

    for n in ("reverse", "sort", "sort-by", "shuffle", "distinct", "take", "drop", "butlast", "group-by", "take-while", "drop-while", "partition", "interleave", "interpose"):
        P[n] = lambda E, a, n=n: Seq(a[-1], ((n, tuple(a[:-1])),), T("elem", a[-1]))
    P["long"] = P["int"] = P["bigint"] = P["num"] = P["short"] = lambda E, a: a[0]

    @d("run!")
    def run_each(E, a):
        f, v = a
        if v is None:
            return None
        if isinstance(v, (Vec, Lst)):
            for x in v:
                E.call(f, [x])
            return None
        E.trace.append(("each", [v], 0))
        E.call(f, [elem(E, v)])
        E.trace.append(("end each", [], 0))
        return None

    P["not-any?"] = lambda E, a: not E.truth(P["some"](E, a))
    P["not-every?"] = lambda E, a: not E.truth(P["every?"](E, a))
    P["ex-info"] = lambda E, a: T("fresh", "exception", *a)
    P["atom"] = P["volatile!"] = lambda E, a: T("fresh", "cell", *a)
    P["with-meta"] = P["vary-meta"] = lambda E, a: a[0]
    P["meta"] = lambda E, a: None
    P["transient"] = P["persistent!"] = lambda E, a: a[0]
    P["delay"] = P["force"] = lambda E, a: a[0]
    P["println"] = P["print"] = P["prn"] = P["flush"] = lambda E, a: E.trace.append(("print", list(a), 0))
    P["<"] = P[">"] = P["<="] = P[">="] = lambda E, a: T("cmp", *a)
    return P
