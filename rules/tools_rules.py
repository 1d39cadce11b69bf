"""C04, C23, C24, C25: the two command line programs, from their main functions on."""
import itertools
import re
from engine.terms import *
from engine.interp import Interp
from lb import clj, facts
from lb.ctx import where
from lb.judge import sh
from lb.wire import tyname
from rules.server_rules import assume_written, check_line, flat_text, merge_strs

LOCAL_ROOT, DEPS, UBERJAR, LOG = "LIMABEAN_CLJ_LOCAL_ROOT", "LIMABEAN_CLJ_DEPS", "LIMABEAN_UBERJAR", "LIMABEAN_POD_LOG"
PANIC_SAYS = "panic"


def is_call(t, *names):
    return t.op == "call" and t.a[0] in names


def text_of(t):
    return t.a[0] if t.op == "str" or (t.op == "k" and isinstance(t.a[0], str)) else None


class End:
    """one way the program ends"""

    def __init__(self, kind, pc, eff, site, status=None):
        self.kind, self.pc, self.eff, self.site, self.status = kind, pc, eff, site, status


class Tool:
    def __init__(self, name):
        self.name = name
        self.p = facts.program(name)
        roots = [b for b in self.p.bodies.values() if b["kind"] == "mono" and b["path"] == "main"]
        if len(roots) != 1:
            raise facts.CannotDecide("no main function in %s" % name)
        self.root = roots[0]
        self.I = I = Interp(self.p)
        outs = I.entry(self.root, [])
        self.ends = []
        for st, v in outs:
            self.ends.append(self.returned(st, v))
        for e in I.exits:
            st = e["state"]
            if e["kind"] == "process::exit":
                a = e["args"][0]
                for code, pc in self.codes(a, st.pc):
                    self.ends.append(End("ok" if code == 0 else "fail" if code is not None else "unknown", pc, st.eff, e["site"], code))
            else:
                self.ends.append(End("fail", st.pc, st.eff, e["site"], e["kind"]))
        self.panics = I.panics
        scs = set()
        for e in self.ends:
            scs |= e.pc.sc | BOOLS_IN(e.pc)
        self.atoms = scs

    def returned(self, st, v):
        site = (self.root["path"], self.root["span"][0], self.root["span"][1])
        # a main that returns a Result or an ExitCode
        if v.op == "adt" and v.a[0] == RES:
            return End("ok" if v.a[1] == "Ok" else "fail", st.pc, st.eff, site, None if v.a[1] == "Ok" else PANIC_SAYS)
        if v.op == "k" and isinstance(v.a[0], int):
            return End("ok" if v.a[0] == 0 else "fail", st.pc, st.eff, site, v.a[0])
        if v.op == "tup" and not v.kids or v is mk("tup"):
            return End("ok", st.pc, st.eff, site)
        s = show(v)
        if "ExitCode::SUCCESS" in s and "FAILURE" not in s:
            return End("ok", st.pc, st.eff, site)
        if "ExitCode::FAILURE" in s and "SUCCESS" not in s:
            return End("fail", st.pc, st.eff, site)
        return End("unknown", st.pc, st.eff, site)

    @staticmethod
    def codes(a, pc):
        if a.op == "k":
            return [(a.a[0] if isinstance(a.a[0], int) else None, pc)]
        if a.op == "case":
            out = []
            s, it, d = case_items(a)
            for l, v in it.items():
                q = AND(pc, eqlabel(s, l))
                if q is not FALSE:
                    out += Tool.codes(v, q)
            if d is not None:
                q = pc
                for l in it:
                    q = AND(q, NOT(eqlabel(s, l)))
                if q is not FALSE:
                    out += Tool.codes(d, q)
            return out
        return [(None, pc)]

    def under(self, m):
        """the ends that are possible when atoms have the given labels: [(End, its condition, simplification of its terms)]"""
        memo, d = {}, dict(m)
        out = []
        for e in self.ends:
            pc = deep(e.pc, d, memo)
            if pc is FALSE or pc is BOT:
                continue
            out.append((e, pc, self.f(d, memo, pc)))
        return out

    @staticmethod
    def f(d, memo, pc):
        return lambda t: simp(deep(t, d, memo), pc)

    def env(self, var):
        """the questions whether an environment variable is set"""
        return [s for s in self.atoms if s.op == "discr" and is_call(s.a[1], "env::var", "env::var_os") and len(s.a[1].a) > 1 and text_of(s.a[1].a[1]) == var]

    def health(self):
        """the questions whether the first argument is the health subcommand"""
        return [s for s in self.atoms if any(e.pc.op == "case" and tests(e.pc, s, "health") for e in self.ends)]


def deep(t, m, memo):
    """t with the knowledge m, also in the questions that t asks"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "case":
        s, it, d = case_items(t)
        if s in m:
            r = deep(cof(t, s, m[s]), m, memo)
        else:
            r = case(deep(s, m, memo), {k: deep(v, m, memo) for k, v in it.items()}, deep(d, m, memo) if d is not None else None)
    elif t in m and m[t] in (0, 1):
        r = K(m[t])
    else:
        r = rebuild(t, [deep(k, m, memo) for k in t.kids])
    memo[t] = r
    return r


def atoms_of(pc):
    return pc.sc | BOOLS_IN(pc)


def tests(pc, s, label):
    for x in subterms(pc):
        if x.op == "case" and x.a[0] is s and label in x.a[1]:
            return True
    return False


def prints(eff, stream):
    """does an effect write to a standard stream"""
    if eff.kind == "print":
        return eff.data[0] == ("io::_print" if stream == "stdout" else "io::_eprint")
    if eff.kind in ("write", "call"):
        return any(hasattr(x, "op") and any(is_call(y, "io::" + stream) for y in subterms(x)) for x in eff.data[1:2])
    return False


# ---- where the standard output may be written ----------------------------------------------------

def fn_names(x, out):
    """function paths, and closures, mentioned anywhere in a body"""
    if isinstance(x, dict):
        fn = x.get("fn")
        if isinstance(fn, dict):
            out.add(fn.get("rpath") or fn["path"])
            out.add(fn["path"])
        for v in x.values():
            fn_names(v, out)
    elif isinstance(x, list):
        if len(x) == 2 and x[0] == "closure":
            out.add(("id", x[1]))
        for v in x:
            fn_names(v, out)


def reachable(p, root):
    """bodies that can run below root: {path: body}; calls resolved by path, so too many rather than too few"""
    by = {}
    for b in p.bodies.values():
        by.setdefault(b["path"], []).append(b)
    todo, seen, ext = [root], {}, {}
    while todo:
        b = todo.pop()
        if b["id"] in seen:
            continue
        seen[b["id"]] = b
        names = set()
        fn_names(b["blocks"], names)
        for n in names:
            if isinstance(n, tuple):
                if n[1] in p.bodies:
                    todo.append(p.bodies[n[1]])
            elif n in by:
                todo += [x for x in by[n] if x["kind"] == "mono"] or by[n]
            else:
                ext.setdefault(n, []).append(b)
        # promoted constants and closures of the function
        for q, xs in by.items():
            if q.startswith(b["path"] + "::{") and q not in seen:
                todo += [x for x in xs if x["kind"] == "mono"]
    return seen, ext


ESC, RAW, DEPK, DEPV = "\ue001", "\ue000", "\ue002", "\ue003"


def const(t):
    x = text_of(t)
    if x is not None:
        return x
    if t.op in ("k", "char") and isinstance(t.a[0], int) and t.op == "char":
        return chr(t.a[0])
    return None


def pattern(t):
    return chr(t.a[0]) if t.op == "k" and isinstance(t.a[0], int) else const(t)


class NotText(Exception):
    pass


def template(t, holes):
    """a text with marks in place of values; holes: [(term, mark)]"""
    for h, m in holes:
        if t is h:
            return m
    x = const(t)
    if x is not None:
        return x
    if t.op in ("disp", "text"):
        return template(t.a[0], holes)
    if t.op == "fmt" or t.op == "cat":
        return "".join(template(k, holes) for k in t.a)
    if t.op == "fspec" and len(t.a) == 2 and t.a[0] == "" and t.a[1].op == "farg" and t.a[1].a[0] == "debug":
        x = template(t.a[1].a[1], holes)
        return '"' + x.replace(RAW, ESC) + '"'
    if t.op == "call" and t.a[0] == "<impl str>::replace" and len(t.a) == 4:
        b, o, n = template(t.a[1], holes), pattern(t.a[2]), const(t.a[3])
        if o is not None and n is not None:
            if b == RAW and (o, n) == ("\\", "\\\\"):
                return RAW + "\\"      # backslashes quoted, quotes not yet
            if b == RAW + "\\" and (o, n) == ('"', '\\"'):
                return ESC
            if b == RAW and (o, n) == ('"', '\\"'):
                return RAW
    raise NotText(show(t)[:120])


def flat(t):
    """elements of a sequence: [("one", term) | ("many", term)]"""
    if t.op == "seq":
        return [("one", k) for k in t.a]
    if t.op == "cat":
        return [x for k in t.a for x in flat(k)]
    return [("many", t)]


def is_rest(t):
    """all arguments but the program's own name"""
    if t.op == "skip" or t.op == "call" and t.a[0] == "Iterator::skip":
        a = t.kids
        return len(a) == 2 and is_args(a[0]) and a[1] is K(1)
    if is_call(t, "slice"):
        rng = t.a[2]
        if not (is_args(t.a[1]) and is_adt(rng) and rng.a[0].split("::")[-1] == "RangeFrom"):
            return False
        n = adt_field(rng, "start")
        return n is K(1) or is_call(n, "Ord::min", "cmp::min") and any(x is K(1) for x in n.a[1:])
    return False


def is_args(t):
    return is_call(t, "env::args", "env::args_os")


def understood(t):
    """is everything in a term known to the analysis"""
    for y in subterms(t):
        if y.op == "call" and not is_args(y) and y.a[0] not in ("env::var", "env::var_os", "slice", "Iterator::skip", "Iterator::take", "Iterator::rev", "OsStr::new", "trim",
                                                               "cmp::min", "Ord::min", "min", "max") \
                and not y.a[0].startswith("<impl str>"):
            return False
        if y.op in ("after", "lv", "param", "bot"):
            return False
    return True


class Launch:
    """the launcher built with or without a standalone application, under one setting of the environment"""

    def __init__(self, tool, built, lr, ub, deps):
        self.t, self.built, self.lr, self.ub, self.deps = tool, built, lr, ub, deps
        m = []
        for var, on in ((LOCAL_ROOT, lr), (UBERJAR, ub), (DEPS, deps)):
            for s in tool.env(var):
                m.append((s, ("Ok" if on else "Err") if s.a[0] == RES else ("Some" if on else "None")))
        for s in tool.atoms:
            if s.op == "discr" and s.a[0] == RES and s.a[1].op == "call" and s.a[1].a[0].split("::")[-1] in ("set_global_default", "try_init"):
                m.append((s, "Ok"))
        self.m = m

    def __str__(self):
        on = [n for n, b in ((LOCAL_ROOT, self.lr), (UBERJAR, self.ub), (DEPS, self.deps)) if b]
        return "%s%s" % (" and ".join(on) + (" set" if on else "nothing set"), ", built with a standalone application" if self.built else "")

    def val(self, var):
        out = []
        for s in self.t.env(var):
            out.append(fld("Ok" if s.a[0] == RES else "Some", "0", s.a[1]))
        return out

    def runtime(self):
        if self.lr:
            return "local"
        if self.ub:
            return "uberjar"
        if self.built:
            return "built"
        return "release"

    def ends(self, health):
        m = list(self.m)
        for s in self.t.health():
            m.append((s, "health" if health else None))
        if health:
            for s in self.t.atoms:
                if s.op == "lt" and s.a[0] is K(1) and s.a[1].op == "len" and is_args(s.a[1].a[0]):
                    m.append((s, 1))
        return self.t.under(m)


def launches():
    for built, name in ((False, "launcher"), (True, "launcher-uberjar")):
        t = Tool(name)
        for lr, ub, deps in itertools.product((True, False), repeat=3):
            yield Launch(t, built, lr, ub, deps)


def cases(t, pc=TRUE):
    """[(condition, value without choices at its top)]"""
    if t.op == "case":
        s, it, d = case_items(t)
        out = []
        for l, v in it.items():
            q = AND(pc, eqlabel(s, l))
            if q is not FALSE:
                out += cases(v, q)
        if d is not None:
            q = pc
            for l in it:
                q = AND(q, NOT(eqlabel(s, l)))
            if q is not FALSE:
                out += cases(d, q)
        return out
    return [] if t is BOT else [(pc, t)]


def own_version():
    import os
    txt = open(os.path.join(facts.REPO, "rust", "Cargo.toml")).read()
    m = re.search(r'(?ms)^\[package\].*?^version\s*=\s*"([^"]+)"', txt)
    return m.group(1) if m else None


def app_name():
    import os
    for f in ("build.clj",):
        p = os.path.join(facts.REPO, "clj", f)
        if os.path.exists(p):
            m = re.search(r"\(def\s+lib\s+'([^\s)]+)", open(p).read())
            if m:
                return m.group(1)
    return None


def C23(ctx, r):
    r.explain = ("The launcher's main function is evaluated over its environment and arguments, once as built plainly and once as built with a standalone application "
                 "configured. For each of the 16 combinations of settings the command that it executes is determined: the program, the option that selects the "
                 "application (the -Sdeps text is read as EDN with the settings as marks in it), and the arguments passed on, which must be the launcher's own from the "
                 "first on, whatever they are.")
    version, name = own_version(), app_name()
    for L in launches():
        execs = []
        site = None
        ends = L.ends(False)
        for e, pc, f in ends:
            runs = [x for x in e.eff if x.kind == "run" and x.data[0] in ("CommandExt::exec", "Command::status", "Command::spawn")]
            if runs:
                execs.append(pc)
                site = site or runs[-1].site
            for x in runs:
                for q, c in cases(f(x.data[1]), pc):
                    if q is FALSE:
                        continue
                    if not is_adt(c, "Command", ""):
                        r.undecide("%s: the command is built in a way that is not followed: %s" % (L, sh(c)))
                        continue
                    r.count("commands")
                    command(r, L, c, x.site, version, name)
        if not execs:
            r.undecide("%s: no command is executed" % L) if not ends else r.violate("exec:%s" % L, "%s: no application is started" % L, where(ends[0][0].site))
            continue
        al = FALSE
        for pc in execs:
            al = OR(al, pc)
        r.count("settings")
        if al is not TRUE:
            if understood(al):
                r.violate("started:%s" % L.runtime(), "%s: whether the application is started depends on %s" % (L, sh(al)), where(site))
            else:
                r.undecide("%s: the application is started when %s" % (L, sh(al)))
    r.floor("settings", 16, "settings of the environment in which an application is started")


def command(r, L, c, site, version, name):
    rt = L.runtime()
    prog = adt_field(c, "program")
    want = "java" if rt in ("uberjar", "built") else "clojure"
    w = where(site)
    p = const(strip_os(prog))
    if p is None:
        r.undecide("%s: the program is %s" % (L, sh(prog)))
        return
    if p != want:
        r.violate("program:%s:%s" % (rt, p), "%s: %s is run where %s should be" % (L, p, want), w)
        return
    xs = [(k, strip_os(x)) for k, x in flat(adt_field(c, "args"))]
    # the arguments of the user come last
    fixed = []
    while xs and xs[0][0] == "one":
        fixed.append(xs.pop(0)[1])
    rest = [x for k, x in xs]
    if len(rest) == 1 and is_rest(rest[0]) and xs[0][0] == "many":
        r.count("argument lists")
    elif not rest:
        r.violate("args:%s" % rt, "%s: the arguments are not passed on to the application" % L, w)
    elif len(rest) == 1 and rest[0].op == "case" and all(is_rest(x) or x is EMPTYSEQ for q, x in cases(rest[0])) and any(is_rest(x) for q, x in cases(rest[0])) \
            and rest[0].a[0].op in ("lt", "discr", "call", "eq"):
        r.undecide("%s: the arguments passed on are %s" % (L, sh(rest[0])))
    elif all(understood(x) for x in rest):
        r.violate("args:%s" % rt, "%s: the application gets %s where it should get all arguments of the launcher" % (L, ", ".join(sh(x) for x in rest)), w)
    else:
        r.undecide("%s: the arguments passed on are %s" % (L, ", ".join(sh(x) for x in rest)))
    if want == "java":
        i = [n for n, x in enumerate(fixed) if const(x) == "-jar"]
        if len(i) != 1 or len(fixed) < i[0] + 2:
            r.violate("jar:%s" % rt, "%s: no application is given to java (%s)" % (L, ", ".join(sh(x) for x in fixed)), w)
            return
        jar, extra = fixed[i[0] + 1], fixed[i[0] + 2:]
        if any(not (const(x) or "").startswith("-") for x in fixed[:i[0]]):
            r.violate("before:%s" % rt, "%s: java takes %s for the application" % (L, ", ".join(sh(x) for x in fixed[:i[0]])), w)
        if extra:
            r.violate("extra:%s" % rt, "%s: the application also gets the argument %s" % (L, ", ".join(sh(x) for x in extra)), w)
        exp = L.val(UBERJAR) if rt == "uberjar" else [S(facts.UBERJAR)]
        if not any(jar is x for x in exp):
            if understood(jar):
                r.violate("which:%s" % rt, "%s: the standalone application run is %s" % (L, sh(jar)), w)
            else:
                r.undecide("%s: the standalone application run is %s" % (L, sh(jar)))
        else:
            r.count("applications")
        return
    # ---- clojure
    i, deps, main = 0, None, None
    while i < len(fixed):
        x = const(fixed[i])
        if x is not None and x.startswith("-J"):
            i += 1
        elif x == "-Sdeps" and i + 1 < len(fixed):
            deps = fixed[i + 1]
            i += 2
        elif x == "-M":
            main = i
            break
        else:
            r.undecide("%s: option %s of the Clojure tool" % (L, sh(fixed[i])))
            i += 1
    if main is None:
        r.violate("main:%s" % rt, "%s: the Clojure tool is not told to run a main function" % L, w)
    else:
        m = [const(x) for x in fixed[main + 1:]]
        if m[:2] != ["-m", "limabean.main"]:
            r.violate("main:%s" % rt, "%s: the Clojure tool is told to run %s" % (L, " ".join(map(str, m))), w)
        elif len(m) > 2:
            r.violate("extra:%s" % rt, "%s: the application also gets the argument %s" % (L, " ".join(map(str, m[2:]))), w)
    if deps is None:
        r.violate("deps:%s" % rt, "%s: the Clojure tool is not told which application to run" % L, w)
        return
    holes = [(x, RAW) for x in L.val(LOCAL_ROOT)] + [(x, DEPK + " " + DEPV) for x in L.val(DEPS)]
    try:
        txt = template(deps, holes)
    except NotText as e:
        if understood(deps):
            r.violate("deps:%s" % rt, "%s: the application is given by %s" % (L, sh(deps)), w)
        else:
            r.undecide("%s: the text of the dependencies is %s" % (L, e))
        return
    try:
        rd = clj.Reader(txt)
        form = rd.read()
        rd.skip()
        if rd.i < len(txt):
            raise clj.ReadError("text after the map")
    except (clj.ReadError, IndexError, ValueError) as e:
        r.violate("edn:%s" % rt, "%s: the dependencies %s are not valid EDN: %s" % (L, sh(deps), e), w)
        return
    top_ = edn_map(form)
    dm = edn_map(top_.get(":deps")) if top_ is not None and ":deps" in top_ else None
    if dm is None:
        r.violate("edn:%s" % rt, "%s: the dependencies %s have no map of :deps" % (L, sh(deps)), w)
        return
    key, val = (":local/root", ESC) if rt == "local" else (":mvn/version", version)
    apps = [(k, edn_map(v)) for k, v in dm.items() if k != DEPK]
    hit = [(k, v) for k, v in apps if v is not None and key in v]
    if len(apps) != 1 or len(hit) != 1:
        r.violate("edn:%s" % rt, "%s: the dependencies %s do not name the application by %s" % (L, sh(deps), key), w)
        return
    got = str(hit[0][1][key]) if hit[0][1][key].__class__ is str or isinstance(hit[0][1][key], str) else repr(hit[0][1][key])
    if got != val:
        if RAW in got:
            r.violate("quote:%s" % rt, "%s: the value of %s is put into the dependencies without quoting its quotes and backslashes" % (L, LOCAL_ROOT), w)
        else:
            r.violate("which:%s" % rt, "%s: the application run is %s %s, where %s is expected" % (L, key, got, val.replace(ESC, "the value of " + LOCAL_ROOT)), w)
    elif name and hit[0][0] != name and rt == "release":
        r.violate("name", "%s: the application run is %s, where %s is released" % (L, hit[0][0], name), w)
    else:
        r.count("applications")
    if L.deps and dm.get(DEPK) != DEPV:
        r.violate("extra-deps:%s" % rt, "%s: the additional dependencies are not included" % L, w)
    if L.deps:
        r.count("additional dependencies")


def edn_map(f):
    if not isinstance(f, clj.MapF):
        return None
    xs = list(f)
    if xs and isinstance(xs[0], tuple):
        return {edn_key(k): v for k, v in xs}
    return {edn_key(xs[i]): xs[i + 1] for i in range(0, len(xs) - 1, 2)}


def edn_key(k):
    return ":" + str(k) if isinstance(k, clj.Kw) else str(k)


def strip_os(t):
    while t.op == "call" and t.a[0].split("::")[-1] in ("new", "as_ref", "to_os_string", "from") and "OsStr" in t.a[0] and len(t.a) == 2:
        t = t.a[1]
    return t


# ---- C24 -----------------------------------------------------------------------------------------

def says(eff, after=-1):
    return any(prints(x, "stderr") for x in eff[after + 1:])


def complain(r, t, end, n, what, key):
    """a way to end after a failure: it must be a failing one, announced on standard error"""
    if end.kind == "ok":
        r.violate(key, "%s: after %s it ends with success" % (t, what), where(end.site))
    elif end.kind == "unknown":
        r.undecide("%s: after %s it ends with a status that is not followed" % (t, what))
    elif end.status != PANIC_SAYS and not says(end.eff, n):
        r.violate(key + ":silent", "%s: after %s it ends without saying so on standard error" % (t, what), where(end.site))
    else:
        r.count("failures followed")


def ignored(p, r, label):
    """results that may be errors and that nothing looks at"""
    for b in p.bodies.values():
        if b["kind"] != "poly":
            continue
        uses = {}
        def note(x):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                    uses[x[0]] = uses.get(x[0], 0) + 1
                for y in x:
                    note(y)
        for blk in b["blocks"]:
            for st in blk["s"]:
                if st[0] == "=":
                    note(st[2])
                    if st[1][1]:
                        uses[st[1][0]] = uses.get(st[1][0], 0) + 1
            t = blk["t"]
            if t and t[0] == "call":
                note(t[2])
            elif t and t[0] == "switch":
                note(t[1])
        for blk in b["blocks"]:
            t = blk["t"]
            if not t or t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1] or t[3][1]:
                continue
            d = t[3][0]
            if tyname(b["locals"][d][0]) != RES or d == 0 or blk.get("cleanup"):
                continue
            r.count("results looked at")
            if not uses.get(d):
                path = t[1][1]["fn"]["path"]
                if any(x in str(t[2]) + str(t[1]) for x in ("Stderr",)):
                    continue
                r.violate("ignored:%s:%s" % (b["path"], path), "%s ignores whether %s failed" % (b["path"], path), where((b["path"], t[-1][0], t[-1][1])))


def C24(ctx, r):
    r.explain = ("The main functions of both programs and the serving loop are evaluated to all their ends. For every program that is run, existence test, and "
                 "operation that gives a Result, the ends that remain when it fails are determined: each must have a non-zero status and write to standard error after "
                 "the failure. The health check must run the program of the runtime selected, look at its exit status, and for a standalone application test that it exists. "
                 "No Result may go unexamined.")
    for L in launches():
        for health in (False, True):
            launcher_failures(r, L, health)
    pod_failures(ctx, r)
    for name in ("launcher", "pod"):
        ignored(facts.program(name), r, name)
    # the serving loop
    for e in ctx.S.I.exits:
        if e["kind"] != "process::exit":
            continue
        a = e["args"][0]
        if a.op == "k" and a.a[0] == 0:
            continue
        r.count("exits while serving")
        if a.op != "k":
            r.undecide("serving ends with status %s" % sh(a))
        elif not says(e["state"].eff):
            r.violate("serve:%s" % e["site"][0], "serving ends with status %s without saying so on standard error" % a.a[0], where(e["site"]))
    r.floor("failures followed", 20, "failures followed to the end")
    r.floor("exits while serving", 1, "failing exits of the serving loop")


def codelike(s):
    """a question about an exit code: is there one, what is it"""
    if s.op == "discr":
        return s.a[0] == OPT and is_call(s.a[1], "ExitStatus::code")
    if s.op == "eq":
        return any(codeval(x) for x in s.a) and any(x is K(0) for x in s.a)
    return codeval(s)


def codeval(t):
    return t.op == "fld" and is_call(t.a[-1], "ExitStatus::code")


def launcher_failures(r, L, health):
    t = L.t
    label = "%s (%s)" % ("health" if health else "run", L)
    key = "%s:%s" % ("health" if health else "run", L.runtime())
    ends = L.ends(health)
    runs = {}
    for e, pc, f in ends:
        for n, x in enumerate(e.eff):
            if x.kind == "run":
                c = f(x.data[1])
                runs.setdefault(call(x.data[0], c), (x, c, []))[2].append((e, n, pc))
    for res, (x, cmd, es) in runs.items():
        prog = ", ".join(sorted({const(strip_os(adt_field(c, "program"))) or "?" for q, c in cases(cmd) if is_adt(c)})) or "a program"
        if x.data[0] == "CommandExt::exec":
            # it returns only if the program cannot be run
            for e, n, pc in es:
                complain(r, label, e, n, "failing to run " + prog, key + ":exec")
            continue
        if x.data[0] == "Command::spawn":
            r.undecide("%s: %s is started and waited for" % (label, prog))
            continue
        ran = discr(RES, res)
        asked = set()
        for e, n, pc in es:
            asked |= atoms_of(pc)
        if ran not in asked:
            r.violate(key + ":ran", "%s: whether %s could be run does not matter" % (label, prog), where(x.site))
            continue
        failures = [([(ran, "Err")], "failing to run " + prog)]
        succ = [s for s in asked if is_call(s, "ExitStatus::success") and any(y is res for y in subterms(s))]
        code = [s for s in asked if s not in succ and any(is_call(y, "ExitStatus::code") or y.op == "fld" and y.a[1] == "status" for y in subterms(s)) and any(y is res for y in subterms(s))]
        if succ:
            failures.append(([(ran, "Ok")] + [(s, 0) for s in succ], prog + " failing"))
        elif code and all(codelike(s) for s in code):
            opt = [s for s in code if s.op == "discr"]
            failures.append(([(ran, "Ok")] + [(s, "None") for s in opt], prog + " being killed"))
            failures.append(([(ran, "Ok")] + [(s, "Some") for s in opt] + [(s, 0 if s.op == "eq" else None) for s in code if s.op != "discr"], prog + " failing"))
        elif code:
            r.undecide("%s: the exit status of %s is examined by %s" % (label, prog, sh(code[0])))
        else:
            r.violate(key + ":status", "%s: the exit status of %s does not matter" % (label, prog), where(x.site))
        for m, what in failures:
            for e, n, pc in es:
                for s, l in m:
                    pc = restrict(pc, s, l)
                if pc is FALSE or pc is BOT:
                    continue
                complain(r, label, e, n, what, "%s:%s" % (key, what))
    # ends with success
    want = "java" if L.runtime() in ("uberjar", "built") else "clojure"
    for e, pc, f in ends:
        if e.kind != "ok":
            continue
        if not health:
            # an end without starting anything: only for the health subcommand
            if not any(x.kind == "run" for x in e.eff):
                if understood(pc):
                    r.violate(key + ":nothing", "%s: it ends with success without having started the application, when %s" % (label, sh(pc)), where(e.site))
                else:
                    r.undecide("%s: it ends with success when %s" % (label, sh(pc)))
            continue
        r.count("good reports of health")
        progs = set()
        for x in e.eff:
            if x.kind == "run":
                for q, c in cases(f(x.data[1])):
                    if is_adt(c):
                        progs.add(const(strip_os(adt_field(c, "program"))))
        if want not in progs:
            r.violate(key + ":unchecked", "%s: it reports good health without having run %s" % (label, want), where(e.site))
        if want == "java":
            jar = L.val(UBERJAR) if L.runtime() == "uberjar" else [S(facts.UBERJAR)]
            tests_ = [s for s in atoms_of(pc) if any(is_call(y, "Path::try_exists", "Path::exists", "Path::is_file", "fs::metadata", "fs::exists", "File::open") for y in subterms(s))]
            tests_ = [s for s in tests_ if any(j is y for j in jar for y in subterms(s))]
            if not tests_:
                r.violate(key + ":jar", "%s: it reports good health whether or not the standalone application exists" % label, where(e.site))
            # the application is absent: every test says so; or it cannot be told: every test fails
            for scene in (0, 1):
                q = pc
                if scene == 0:
                    gone = {fld("Ok", "0", s.a[1]): K(0) for s in tests_ if s.op == "discr" and s.a[0] == RES and any(is_call(y, "Path::try_exists", "fs::exists") for y in subterms(s.a[1]))}
                    q = subst(pc, gone) if gone else pc
                for s in tests_:
                    if s.op == "discr" and s.a[0] == RES:
                        q = restrict(q, s, "Ok" if scene == 0 and any(is_call(y, "Path::try_exists", "fs::exists") for y in subterms(s.a[1])) else "Err")
                    elif s.op != "discr" and not (scene == 1 and any(is_call(y, "Path::try_exists", "fs::exists") for y in subterms(s))):
                        q = restrict(q, s, 0)
                if tests_:
                    r.count("existence tests")
                if tests_ and q is not FALSE and q is not BOT:
                    r.violate(key + ":jar", "%s: it reports good health although the standalone application does not exist" % label, where(e.site))
    if health:
        for e, pc, f in ends:
            if e.kind == "fail" and e.status != PANIC_SAYS and not says(e.eff):
                r.violate(key + ":silent", "%s: it ends with status %s without saying so on standard error" % (label, e.status), where(e.site))


class Pod:
    def __init__(self):
        self.t = Tool("pod")
        self.cmds = [s for s in self.t.atoms if s.op == "discr" and s.a[0] not in (RES, OPT) and {"Serve", "Tabulate"} <= set(UNIV.get(s.a[0], ()))]
        if not self.cmds:
            raise facts.CannotDecide("no choice between the subcommands of the pod")
        self.results = [s for s in self.t.atoms if s.op == "discr" and s.a[0] == RES and s.a[1].op == "call"
                        and not is_call(s.a[1], "env::var") and s.a[1].a[0].split("::")[-1] not in ("set_global_default", "try_init")]

    def ends(self, cmd, more=(), logs=None):
        m = [(s, cmd) for s in self.cmds] + list(more)
        if logs is not None:
            for s in self.t.env(LOG):
                m.append((s, ("Ok" if logs else "Err") if s.a[0] == RES else ("Some" if logs else "None")))
        return self.t.under(m)

    def used(self, cmd):
        """the results that matter to a subcommand, in the order in which they are asked for"""
        out = []
        for e, pc, f in self.ends(cmd):
            for s in self.results:
                if s in pc.sc and s not in out:
                    out.append(s)
        return sorted(out, key=lambda s: s.size)


def pod_failures(ctx, r):
    pod = Pod()
    for cmd in UNIV[pod.cmds[0].a[0]]:
        used = pod.used(cmd)
        for n, s in enumerate(used):
            m = [(x, "Ok") for x in used if x is not s and not any(y is s.a[1] for y in subterms(x.a[1]))] + [(s, "Err")]
            what = "%s failing" % s.a[1].a[0]
            for e, pc, f in pod.ends(cmd, m):
                # where the operation was not even tried, its failure does not matter
                if s not in e.pc.sc:
                    continue
                k = [i for i, x in enumerate(e.eff) if x.kind == "call" and x.data[0] == s.a[1].a[0]]
                complain(r, cmd.lower(), e, k[-1] if k else -1, what, "pod:%s:%s" % (cmd, s.a[1].a[0]))
        for e, pc, f in pod.ends(cmd):
            if e.kind == "fail" and e.status != PANIC_SAYS and not says(e.eff):
                r.violate("pod:%s:silent" % cmd, "%s: it ends with status %s without saying so on standard error" % (cmd.lower(), e.status), where(e.site))
    # what serving returns must not be lost
    lib = ctx.prog
    for c in pod.t.I.calls:
        for b in lib.bodies.values():
            if b["kind"] == "poly" and c["path"].split("<")[0] in ("limabean::" + b["path"], "limabean::api::" + b["path"].split("::")[-1]) and b["path"].split("::")[-1] == c["path"].split("::")[-1] == "serve":
                r.count("calls of the library")
                if tyname(b["locals"][0][0]) == RES and discr(RES, c["res"]) not in pod.t.atoms:
                    r.violate("pod:serve:ignored", "whether %s failed does not matter" % b["path"], where(c["site"]))


# ---- C25 -----------------------------------------------------------------------------------------

def whole_input(t):
    """(is it all of the standard input as text, the Result that says it could be read)"""
    if t.op == "after" and t.a[0] == "Read::read_to_string" and any(is_call(y, "io::stdin") for y in subterms(t)):
        buf = t.kids[-1]
        if const(buf) == "" or buf is EMPTYSEQ:
            return True
    if t.op == "fld" and t.a[0] == "Ok" and is_call(t.a[2], "io::read_to_string") and any(is_call(y, "io::stdin") for y in subterms(t)):
        return True
    return False


READS = ("read_to_string", "read_line", "read_to_end", "read", "lines", "read_until", "read_exact", "from_reader", "bytes", "take")


def C25(ctx, r):
    r.explain = ("The pod's main function is evaluated to all its ends under the tabulate subcommand. Where it ends with success its standard output must be exactly the "
                 "display of the cell parsed from the whole text of standard input, and a newline; where reading or parsing fails, it must end with a non-zero status and "
                 "have written nothing to standard output.")
    pod = Pod()
    used = pod.used("Tabulate")
    parse = [s for s in used if s.a[1].a[0].split("::")[-1] in ("from_json", "from_str", "from_slice", "from_reader")]
    for e, pc, f in pod.ends("Tabulate"):
        outs = [x for x in e.eff if prints(x, "stdout")]
        if e.kind != "ok":
            r.count("failing ends")
            # the output itself may have failed
            wr = [x for x in pc.sc if x.op == "discr" and x.a[0] == RES and is_call(x.a[1], "io_result")]
            q = pc
            for x in wr:
                q = restrict(q, x, "Ok")
            if outs and q is not FALSE and q is not BOT:
                r.violate("output:fail", "a failing tabulate writes %s to standard output" % sh(outs[0].data[-1]), where(outs[0].site))
            continue
        r.count("successful ends")
        if len(outs) != 1:
            if not outs:
                r.violate("output:none", "tabulate ends with success without having printed a table, when %s" % sh(pc), where(e.site))
            else:
                txt = cat_text([f(x.data[-1]) for x in outs])
                check_output(r, txt, outs[0], parse)
            continue
        check_output(r, f(outs[0].data[-1]), outs[0], parse)
    if not parse:
        r.undecide("how tabulate parses its input is not recognised")
    for s in parse:
        src = s.a[1].a[1]
        r.count("inputs parsed")
        if whole_input(src):
            pass
        elif src.op == "call" and src.a[0].split("::")[-1] in ("trim", "trim_end", "trim_start") and whole_input(src.a[1]):
            r.undecide("the input is tabulated without white space around it")
        elif any(is_call(y, "utf8_lossy", "String::from_utf8_lossy") for y in subterms(src)):
            r.violate("input:lossy", "input that is not text is tabulated instead of being an error", None)
        else:
            early = [y for y in subterms(src) if y.op == "any" and lines_of(y.a[1])]
            early = [y for y in early if left_early(y.a[2])]
            rd = sorted({y.a[0] for y in subterms(src) if y.op in ("after", "call") and isinstance(y.a[0], str) and y.a[0].split("::")[-1] in READS})
            if rd and all(x.split("::")[-1] in ("read_line", "read_until", "read", "read_exact", "take") for x in rd):
                r.violate("input:part", "only a part of the standard input is tabulated (%s)" % ", ".join(rd), None)
            elif early:
                r.violate("input:part", "reading the lines of the standard input can stop before their end: when %s" % sh(early[0].a[2]), None)
            elif understood_text(src):
                r.violate("input:changed", "what is tabulated is %s" % sh(src), None)
            else:
                r.undecide("what is tabulated is %s" % sh(src))
        # failure to read or parse
    for s in used:
        m = [(x, "Ok") for x in used if x is not s and not any(y is s.a[1] for y in subterms(x.a[1]))] + [(s, "Err")]
        for e, pc, f in pod.ends("Tabulate", m):
            if s in e.pc.sc:
                r.count("failures followed")
                if e.kind == "ok":
                    r.violate("fail:%s" % s.a[1].a[0], "tabulate ends with success although %s failed" % s.a[1].a[0], where(e.site))
    if not any(s.a[1].a[0].split("::")[-1].startswith("read") for s in used):
        src = parse[0].a[1].a[1] if parse else None
        if src is None or not any(y.op == "after" for y in subterms(src)):
            r.undecide("how tabulate reads its input is not recognised")
        else:
            r.violate("fail:read", "whether the standard input could be read does not matter to tabulate", None)
    r.floor("successful ends", 1, "successful ends of tabulate")


def understood_text(t):
    return not any(y.op in ("lv",) or y.op == "call" and not (y.a[0].startswith("<impl str>") or y.a[0] in ("slice", "io::stdin", "trim")) for y in subterms(t))


def cat_text(xs):
    parts = []
    for x in xs:
        parts += list(x.a) if x.op == "fmt" else [x]
    out = []
    for p in parts:
        if out and const(p) is not None and const(out[-1]) is not None:
            out[-1] = S(const(out[-1]) + const(p))
        else:
            out.append(p)
    return mk("fmt", *out)


def lines_of(t):
    return any(is_call(y, "Stdin::lines", "BufRead::lines", "lines") and any(is_call(z, "io::stdin") for z in subterms(y)) for y in subterms(t))


def left_early(pred):
    """can a loop over lines that were all read be left"""
    for s in sorted(pred.sc, key=sh):
        if s.op == "discr" and s.a[0] == RES:
            pred = restrict(pred, s, "Ok")
    return pred is not FALSE and pred is not BOT


def check_output(r, t, eff, parse):
    w = where(eff.site)
    xs = list(t.a) if t.op == "fmt" else [t]
    cells = [fld("Ok", "0", s.a[1]) for s in parse]
    if len(xs) == 2 and xs[0].op in ("disp", "text") and any(xs[0].a[0] is c for c in cells) and const(xs[1]) == "\n":
        r.count("tables printed")
        return
    if t.op == "call" or any(y.op == "call" and not any(y is z for c in cells for z in subterms(c)) for x in xs for y in subterms(x)):
        r.undecide("tabulate prints %s" % sh(t))
        return
    r.violate("output:text", "tabulate prints %s, where the table and one newline are expected" % sh(t), w)


# ---- C04 -----------------------------------------------------------------------------------------

SINK = ("io::_print",)


def C04(ctx, r):
    r.explain = ("The functions that can run while serving are those reachable from the serving function through calls, closures and trait implementations; none may print to "
                 "standard output. The handle of standard output taken by the serving function must only be written to, once per answer, with one line: serialised JSON "
                 "without line breaks and a newline. In the pod's main function the serve subcommand may print nothing, and a subscriber for log events must write to the "
                 "file that %s names." % LOG)
    S_ = ctx.S
    p = ctx.prog
    seen, ext = reachable(p, S_.root)
    impls = [b for b in p.bodies.values() if b["kind"] == "mono" and b.get("impl_trait") and b["id"] not in seen]
    for b in impls:
        s2, e2 = reachable(p, b)
        seen.update(s2)
        for k, v in e2.items():
            ext.setdefault(k, []).extend(v)
    r.count("functions", len(seen))
    handles = []
    for n, bs in sorted(ext.items()):
        l = n.split("::")[-1]
        for b in bs:
            site = call_site(b, n)
            if n.endswith("io::_print") or n.endswith("io::stdio::_print"):
                r.violate("print:%s" % b["path"], "%s prints to standard output, which carries the responses" % b["path"], where(site))
            elif n.endswith(("io::stdout", "io::stdio::stdout")):
                handles.append((b, site))
            elif ("File::create" in n or "OpenOptions::open" in n or n.endswith("fs::write")) and any(x in str(b["blocks"]) for x in ("/dev/stdout", "/dev/fd/1", "/proc/self/fd/1")):
                r.violate("open:%s" % b["path"], "%s opens standard output as a file" % b["path"], where(site))
            elif l in ("from_raw_fd", "libc_write") and "1_i32" in str(b["blocks"]):
                r.undecide("%s uses raw file descriptors" % b["path"])
            elif ("tracing_subscriber" in n and l in ("init", "try_init", "set_default")):
                r.violate("log:%s" % b["path"], "%s lets log events go to standard output" % b["path"], where(site))
    r.count("functions called outside the crate", len(ext))
    # what happens to the handle
    for e in S_.I.calls:
        for i, a in enumerate(e["args"]):
            if any(is_call(y, "io::stdout") for y in subterms(a)):
                l = e["name"].split("::")[-1]
                if l in ("write_fmt", "write_all", "write", "flush", "lock", "write_str", "new", "by_ref", "with_capacity", "get_mut", "serve", "drop", "from_str", "to_string"):
                    continue
                if e["path"].split("::")[0] in {b["path"].split("::")[0] for b in p.bodies.values() if not b["path"].startswith("<")}:
                    continue
                r.violate("handle:%s" % e["name"], "%s is given the standard output, which carries the responses" % e["name"], where(e["site"]))
    for a in S_.answers:
        ws = [w for w in a.writes if any(is_call(y, "io::stdout") or y.op == "lv" or y.op == "param" for y in subterms(w.data[1]))]
        r.count("writes", len(ws))
        if len(ws) == 1 and ws[0].data[-1].op != "cat":
            for q, x in cases(simp(ws[0].data[-1], a.pc)):
                shape(r, x, ws[0])
        elif ws:
            # one line written piece by piece
            ps = []
            for w in ws:
                ps += flat_text(assume_written(S_, w.data[-1]))
            bad = check_line(S_, merge_strs(ps))
            if bad:
                r.violate("line:%s" % bad, "%s is written to standard output where one response is expected" % bad, where(ws[-1].site))
            elif bad is None:
                r.undecide("what is written to standard output is %s" % sh(tup(*ps)))
            else:
                r.count("response lines")
    for st, v in S_.outs:
        for e in st.eff:
            if e.kind == "write" and is_call(e.data[1], "io::stdout"):
                r.violate("late:%s" % e.site[0], "%s is written after serving" % sh(e.data[-1]), where(e.site))
    for x in S_.I.exits:
        for e in x["state"].eff:
            if e.kind == "print" and e.data[0] == "io::_print":
                r.violate("print:%s" % e.site[0], "%s prints to standard output, which carries the responses" % e.site[0], where(e.site))
    pod_serving(r)
    r.floor("writes", 8, "writes of responses")
    r.floor("functions", 60, "functions that run while serving")
    if not handles:
        r.undecide("where the standard output is taken is not recognised")


def shape(r, t, w):
    xs = list(t.a) if t.op == "fmt" else [t]
    site = where(w.site)
    ser = [y for x in xs for y in subterms(x) if y.op == "call" and y.a[0].startswith("serde_json::to_") and top_level(x, y)]
    if len(xs) == 2 and const(xs[1]) is not None and ser and xs[0].op in ("disp", "text"):
        if const(xs[1]) != "\n":
            r.violate("line:end", "a response line ends with %r instead of one newline" % const(xs[1]), site)
        elif "pretty" in ser[0].a[0]:
            r.violate("line:pretty", "a response is spread over several lines", site)
        else:
            r.count("response lines")
        return
    lits = [const(x) for x in xs if const(x) is not None]
    if ser and len(xs) >= 1 and all(const(x) is not None or x.op in ("disp", "text") for x in xs):
        if not lits or not lits[-1].endswith("\n") or const(xs[-1]) is None:
            r.violate("line:end", "a response line is not ended by a newline", site)
        else:
            r.violate("line:more", "a response line is accompanied by %s" % ", ".join(map(repr, lits)), site)
        return
    if all(const(x) is not None for x in xs):
        r.violate("line:text", "%s is written to standard output, which carries the responses" % ", ".join(map(repr, lits)), site)
        return
    r.undecide("what is written to standard output is %s" % sh(t))


def top_level(x, y):
    """is y displayed by x itself, not a part of something that is"""
    while x.op in ("disp", "text", "fld") or x.op == "call" and x.a[0] == "from_utf8":
        x = x.kids[-1]
    return x is y


def call_site(b, name):
    for blk in b["blocks"]:
        t = blk["t"]
        if t and t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1] and name in (t[1][1]["fn"]["path"], t[1][1]["fn"].get("rpath")):
            return (b["path"], t[-1][0], t[-1][1])
    return (b["path"], b["span"][0], b["span"][1]) if b.get("span") else None


def pod_serving(r):
    pod = Pod()
    for e, pc, f in pod.ends("Serve"):
        r.count("ways of starting to serve")
        for x in e.eff:
            if prints(x, "stdout"):
                r.violate("main:%s" % x.site[0], "the pod writes %s to standard output when serving" % sh(x.data[-1]), where(x.site))
    n = 0
    for c in pod.t.I.calls:
        if c["path"].split("<")[0].endswith("::serve"):
            n += 1
        l = c["name"].split("::")[-1]
        if "tracing" in c["path"] and l in ("set_global_default", "init", "try_init", "set_default", "with_default"):
            cond = c["pc"]
            for s in pod.cmds:
                cond = restrict(cond, s, "Serve")
            if cond is FALSE or cond is BOT:
                continue
            r.count("log subscribers")
            sub = mk("tup", *[a for a in c["args"]])
            ws = [y for y in subterms(sub) if y.op == "call" and y.a[0].split("::")[-1] in ("with_writer", "map_writer")]
            if not ws:
                if any(y.op == "call" and ("tracing_subscriber" in y.a[0] or y.a[0].split("::")[-1] in ("finish", "init")) for y in subterms(sub)) or l in ("init", "try_init"):
                    r.violate("log:stdout", "log events go to standard output, which carries the responses", where(c["site"]))
                else:
                    r.undecide("where log events go is not recognised: %s" % sh(sub))
                continue
            wt = ws[0].a[-1]
            txt = show(wt)
            if "stdout" in txt:
                r.violate("log:stdout", "log events go to standard output, which carries the responses", where(c["site"]))
            elif not any(is_call(y, "env::var", "env::var_os") and text_of(y.a[1]) == LOG for y in subterms(wt)):
                r.violate("log:where", "log events go to %s, not to the file named by %s" % (sh(wt), LOG), where(c["site"]))
            else:
                r.count("log files")
    if not n:
        r.undecide("where the pod starts to serve is not recognised")
