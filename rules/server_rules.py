"""Rules over the serving loop."""
from engine.terms import *
from lb.ctx import where, pcsummary, crate_of
from lb.judge import ABSENT, NULL, obj, obj_items, rewrite, sh, diff
from lb.spec import *
from lb import facts
from lb.texts import text_truth
from . import ledger

QUERY = {"plugins": "ParserPlugins", "directives": "ParserDirectives", "options": "ParserOptions"}


def method_variants(ctx):
    """wire name of a method -> variant of the request"""
    S, W = ctx.S, ctx.W
    ms = {s.a[0] for s in S.methods}
    for m in ms:
        rd = W.reads(m)
        if rd and rd["variants"]:
            return m, rd["variants"]
    # simple enums and structs are looked up by the type of what the request is parsed to
    raise facts.CannotDecide("the request's method is not an enum with a reading table")


def method(ctx, name):
    _, vs = method_variants(ctx)
    return vs.get(name)


def one(ctx, r, label, **kw):
    """the only answer to a kind of request"""
    rs = ctx.answers(**kw)
    good = [x for x in rs if x[2] is not None]
    if len(good) != 1 or len(rs) != len(good):
        jsons = {x[2] for x in good}
        if len(jsons) == 1 and len(good) == len(rs):
            return good[0]
        # several ways: merge by condition
        if good and len(good) == len(rs):
            v = sel([(x[1], x[2]) for x in good])
            return (good[0][0], TRUE, v, good[0][3])
        r.undecide("%s: %d ways of answering, %d understood" % (label, len(rs), len(good)))
        return None
    return good[0]


def result_of(ctx, r, label, name, parse="Ok"):
    m = method(ctx, name)
    if m is None:
        r.violate("%s:missing" % label, "%s: no request method is named %s on the wire" % (label, name))
        return None
    a = one(ctx, r, label, method=m, request="Ok", parse=parse, sources="Ok")
    if a is None:
        return None
    j = drop_io(ctx, a[2])
    return a, j


def drop_io(ctx, j):
    return j


def member(j, k):
    return dist(j, lambda x: obj_items(x).get(k, ABSENT) if x.op == "obj" else ABSENT if x is ABSENT else mk("not-an-object"))


def parsed(ctx):
    ps = {s.a[1] for s in ctx.S.parses}
    if not ps:
        raise facts.CannotDecide("no call of the parser found")
    return ps


def parsed_part(ctx, part):
    return {fld("", part, fld("Ok", "0", p)) for p in parsed(ctx)}


def C06(ctx, r):
    r.explain = ("The value serialised for a parser.directives request is evaluated symbolically (MIR of the serving loop, conversions and Serialize "
                 "implementations) to a JSON term over the parser's accessors and compared, member by member and branch by branch, with the "
                 "expected term: every member comes from its own accessor of its own ledger entry.")
    x = result_of(ctx, r, "parser.directives", "parser.directives")
    if x is None:
        return
    a, j = x
    act = member(member(j, "result"), "directives")
    src = [p for p in parsed_part(ctx, "directives")]
    best = pick_src(act, src)
    exp = each(best, ledger.directive)
    n = sum(1 for y in subterms(exp) if y.op == "call")
    r.count("accessors_expected", n)
    r.count("terms_compared", sum(1 for _ in subterms(act)))
    r.floor("accessors_expected", 40, "parser accessors")
    site = ctx.S.I.made.get(("api::types::raw::Directive", ""))
    ctx.compare(r, "directive", act, exp, site=sorted(site, key=str)[0] if site else None)


def pick_src(act, src):
    for s in src:
        if any(x is s for x in subterms(act)):
            return s
    return src[0]


def C08(ctx, r):
    r.explain = ("The value serialised for a parser.options request, as a JSON term over the parser's option accessors, is compared with the table "
                 "option name -> accessor of the same name; collections are compared as comprehensions over the accessor's items.")
    x = result_of(ctx, r, "parser.options", "parser.options")
    if x is None:
        return
    a, j = x
    act = member(j, "result")
    src = pick_src(act, list(parsed_part(ctx, "options")))
    exp = ledger.options(src)
    r.count("options", len(exp.a[0]))
    r.count("terms_compared", sum(1 for _ in subterms(act)))
    r.floor("options", 23, "options")
    site = ctx.S.I.made.get(("api::types::raw::Options", ""))
    ctx.compare(r, "options", act, exp, site=sorted(site, key=str)[0] if site else None)


# ---- C01 ----------------------------------------------------------------------------------------
def flat_text(t):
    """pieces of written text"""
    if t.op == "fmt":
        out = []
        for x in t.a:
            out += flat_text(x)
        return out
    if t.op == "disp":
        return [t.a[0]]
    if t.op in ("cat", "seq"):
        out = []
        for x in t.a:
            out += [S(chr(x.a[0]))] if t.op == "seq" and x.op == "k" and type(x.a[0]) is int and 0 <= x.a[0] < 128 else flat_text(x)
        return out
    if t.op == "bytes" and isinstance(t.a[0], bytes):
        return [S(t.a[0].decode("utf8", "replace"))]
    if t.op == "text" or t.op == "bytes":
        return flat_text(t.a[0])
    return [t]


def merge_strs(ps):
    out = []
    for p in ps:
        if p.op == "str" and out and out[-1].op == "str":
            out[-1] = S(out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    return out


def C01(ctx, r):
    r.explain = ("Every path through one iteration of the serving loop is enumerated symbolically: each path that comes back to the loop head must have "
                 "read exactly one line into an emptied buffer, parsed that line, and written one text consisting of one serde_json::to_string result "
                 "and a final newline; the only other ways out are process exits, with status 0 exactly when the read returned no bytes and non-zero "
                 "when the read failed.")
    Sv = ctx.S
    if not Sv.loops:
        raise facts.CannotDecide("no serving loop found")
    for a in Sv.answers:
        r.count("paths")
        site = a.writes[0].site if a.writes else (a.loop.site if a.loop.site else None)
        sc = scenario(ctx, a)
        reads = [e for e in a.eff if e.kind == "call" and ("read_line" in str(e.data[0]) or "read_until" in str(e.data[0]))]
        if len(reads) > 1:
            r.violate("reads:%s" % sc, "a request path (%s) reads %d lines before answering" % (sc, len(reads)), where(reads[-1].site))
        loops = [e for e in a.eff if e.kind == "loop"]
        for e in loops:
            n = loop_writes(Sv, e)
            if n is True:
                r.violate("loopwrite:%s" % sc, "a request path (%s) writes to standard output inside a loop" % sc, where(e.site))
        if not a.writes:
            if [e for e in loops if loop_writes(Sv, e)]:
                continue
            other = [e for e in a.eff if e.kind == "call" and "stdout" in show(mk("tup", *[x for x in e.data if isinstance(x, T)]), 0, 6)]
            if other:
                r.undecide("a request path (%s) hands the output to %s" % (sc, other[0].data[0]))
                continue
            r.violate("noline:%s" % sc, "a request path (%s) goes on to the next line without writing a response" % sc, where(a.loop.site))
            continue
        ok_only = [f for f in a.writes]
        # the conditions under which the texts were written are part of the path; writes that fail end the process
        ps = []
        for w in ok_only:
            ps += flat_text(assume_written(Sv, w.data[-1]))
        ps = merge_strs(ps)
        r.count("writes", len(a.writes))
        bad = check_line(Sv, ps)
        if bad is None:
            r.undecide("path (%s): cannot tell what is written: %s" % (sc, sh(tup(*ps))))
        elif bad:
            r.violate("line:%s:%s" % (sc, bad), "a request path (%s) writes %s: %s" % (sc, bad, sh(tup(*ps))), where(site))
        handles = {w.data[0] if isinstance(w.data[0], T) else w.data[-2] for w in a.writes}
        for h in handles:
            if isinstance(h, T) and "stdout" not in show(h, 0, 6):
                r.undecide("path (%s): writes to %s" % (sc, sh(h)))
            if isinstance(h, T) and any(x.op == "call" and x.a[0].split("::")[0] in ("BufWriter", "LineWriter") and x.a[0].startswith("BufWriter") for x in subterms(h)):
                if not any(e.kind == "flush" or (e.kind == "call" and "flush" in str(e.data[0])) for e in a.eff):
                    r.violate("unflushed:%s" % sc, "a request path (%s) leaves its response in a buffered writer" % sc, where(site))
    r.floor("paths", 4, "paths through the serving loop")
    # the request is the line just read, into an empty buffer
    for q in Sv.reqs:
        rl = [x for x in subterms(q) if x.op in ("call", "after") and "read_line" in x.a[0]]
        src = q.a[1] if len(q.a) > 1 else None
        if not rl:
            r.undecide("the request text is not taken from read_line: %s" % sh(q))
            continue
        for x in rl:
            buf = x.a[-1] if isinstance(x.a[-1], T) else None
            if buf is not None and buf is not S("") and buf is not EMPTYSEQ:
                if buf.op in ("lv",) or any(y.op == "lv" for y in subterms(buf)):
                    r.violate("stale-buffer", "the line buffer is not emptied before the next line is read: %s" % sh(buf), where(Sv.loops[0].site))
                else:
                    r.undecide("line buffer holds %s before reading" % sh(buf))
        inner = src
        while inner is not None and inner.op in ("call",) and inner.a[0].split("::")[-1] in ("trim", "trim_end", "trim_start", "as_str", "as_bytes"):
            inner = inner.a[1]
        if inner is not None and inner.op == "call" and inner.a[0] == "trim":
            inner = inner.a[1]
        if not (inner is not None and inner.op == "after" and "read_line" in inner.a[0]):
            if inner is not None and not any(x.op in ("unk", "lv") for x in subterms(inner)):
                r.undecide("request text is %s" % sh(src))
        r.count("request_parses")
    # ways out
    I = Sv.I
    main_exits = [x for x in I.exits if x["kind"].endswith("process::exit")]
    other = [x for x in I.exits if not x["kind"].endswith("process::exit") and "abort" in x["kind"]]
    for x in main_exits + other:
        r.count("exits")
        pc = x["state"].pc
        arg = x["args"][0] if x["args"] else None
        kind = exit_reason(Sv, pc)
        if kind == "eof":
            if arg is not None and arg.op == "k" and arg.a[0] != 0:
                r.violate("exit-eof", "at the end of input the server exits with status %s" % sh(arg), where(x["site"]))
        elif kind == "error":
            if arg is not None and arg is K(0):
                r.violate("exit-error", "when input cannot be read the server exits with status 0", where(x["site"]))
        else:
            r.violate("exit-other:%s" % pcsummary(pc), "the server exits (status %s) although a request was read (%s)" % (sh(arg) if arg else "?", pcsummary(pc)), where(x["site"]))
    for st, v in Sv.outs:
        kind = exit_reason(Sv, st.pc)
        r.count("returns")
        if kind == "error":
            r.violate("return-error", "serve returns normally when its input cannot be read", where(Sv.loops[0].site))
        elif kind == "other":
            r.violate("return-other:%s" % pcsummary(st.pc), "serve returns although input is left (%s)" % pcsummary(st.pc), where(Sv.loops[0].site))
    # every input outcome is handled: the loop does not spin on failure or end of input
    for a in Sv.answers:
        k = exit_reason(Sv, a.pc)
        if k in ("eof", "error"):
            r.violate("spins:%s" % k, "at the %s of input the server stays in its loop" % ("end" if k == "eof" else "failure"), where(a.loop.site))


def loop_writes(Sv, e):
    d = e.data[0] if e.data else None
    for x in e.data:
        if isinstance(x, (list, tuple)):
            for y in x:
                if getattr(y, "kind", None) == "write":
                    return True
    rec = next((x for x in Sv.I.loops if any(x is y for y in e.data)), None)
    if rec is not None and rec not in Sv.loops:
        return any(f.kind == "write" for f in (rec.loop_eff or []))
    return False


def assume_written(Sv, t):
    for s in Sv.inputs + Sv.sers + Sv.wrs:
        t = restrict(t, s, "Ok")
    return t


def check_line(Sv, ps):
    """"" fine, text what is wrong, None unknown"""
    if len(ps) == 2 and ps[0].op == "fld" and is_ser(ps[0]) and ps[1] is S("\n"):
        return ""
    if len(ps) == 2 and ps[0].op == "case" and all(l is BOT or is_ser(l) for l in leaves(ps[0])) and ps[1] is S("\n"):
        return ""
    sers = [p for p in ps if is_ser(p)]
    rest = [p for p in ps if not is_ser(p)]
    if any("pretty" in p.a[2].a[0] for p in sers):
        return "a response spread over several lines"
    if all(p.op == "str" for p in rest):
        if len(sers) == 0:
            return "a line that is not a serialised response"
        if len(sers) > 1:
            return "%d responses" % len(sers)
        tail = rest[-1].a[0] if rest and ps[-1] is rest[-1] else ""
        if tail.strip(" \t") == "\n" and len(ps) == 2:
            return ""
        n = "".join(p.a[0] for p in rest).count("\n")
        if n != 1 or not tail.endswith("\n"):
            return "%d line ends" % n
        return "extra text on the line"
    return None


def is_ser(p):
    return p.op == "fld" and p.a[0] == "Ok" and p.a[2].op == "call" and p.a[2].a[0].startswith("serde_json::to_string")


def exit_reason(Sv, pc):
    """what the path knows about the input"""
    f = forced(pc) if pc is not TRUE else {}
    for s in Sv.inputs:
        if f.get(s) == "Err":
            return "error"
    # some instances of the loop exclude each other
    if Sv.inputs and AND(pc, anyof([AND(reached(Sv, s, pc), eqlabel(s, "Ok")) for s in Sv.inputs])) is FALSE:
        return "error"
    # whether anything was read: what is asked of the number of bytes and of the text, for every text that makes a difference
    counts = {fld("Ok", "0", s.a[1]) for s in Sv.inputs}
    bufs = {x for s in Sv.eofs for x in subterms(s) if x.op == "after" and "read_line" in x.a[0]}
    known = counts | bufs
    asked = [s for s in pc.sc | BOOLS_IN(pc) if any(x in known for x in subterms(s)) and not any(x in Sv.reqs for x in subterms(s))]
    texts = {"\n", "\r\n", " \n", "x", "x\n", "[]\n", "{}\n", "x" * 4096 + "\n"}
    for s in asked:
        for x in subterms(s):
            if x.op == "k" and isinstance(x.a[0], int):
                texts |= {"x" * n for n in (x.a[0] - 1, x.a[0], x.a[0] + 1) if 0 < n < 1 << 16}
            elif x.op == "str" and x.a[0]:
                texts |= {x.a[0], x.a[0] + "\n", "x" + x.a[0] + "\n"}
        if s in counts:
            for t in [pc] + list(subterms(pc)):
                if t.op == "case" and t.a[0] is s:
                    texts |= {"x" * l for l in t.a[1] if isinstance(l, int) and 0 < l < 1 << 16}
    for text in sorted(texts):
        env = {**{c: len(text) for c in counts}, **{b: text for b in bufs}}
        p = pc
        for s in asked:
            l = text_truth(s, env)
            if l is not None:
                p = restrict(p, s, l)
        if p is not FALSE:
            return "other"
    return "eof" if asked else "other"


def anyof(xs):
    r = FALSE
    for x in xs:
        r = OR(r, x)
    return r


def reached(Sv, s, pc):
    return TRUE if s in pc.sc else FALSE


def bool_(s):
    BOOLS.add(s)
    return s


def scenario(ctx, a):
    """short name of a request path"""
    out = []
    f = forced(a.pc) if a.pc is not TRUE else {}
    Sv = ctx.S
    for s in Sv.sources:
        if f.get(s) == "Err":
            out.append("unreadable ledger")
    for s in Sv.reqcalls:
        if f.get(s) == "Err":
            out.append("unparsable request")
    for s in Sv.methods:
        if s in f:
            out.append(str(f[s]))
    for s in Sv.parses:
        if s in f and f[s] == "Err":
            out.append("syntax errors")
    return ", ".join(out) or "any"


# ---- C02 ----------------------------------------------------------------------------------------
def expected_id(ctx, r, q):
    rq = request_type(ctx)
    rd = ctx.W.reads(rq)
    f = (rd or {}).get("fields", {}).get("id")
    if not f:
        raise facts.CannotDecide("the request type does not read a member id")
    return ctx.J(fld("", f["field"], fld("Ok", "0", q)), f["ty"])


def request_type(ctx):
    for c_ in ctx.S.I.calls:
        if c_["name"] == "serde_json::from_str":
            g = [x for x in c_["fn"]["gargs"] if not x.startswith("'")]
            from lb.wire import tyname
            for x in g:
                if tyname(x) in ctx.prog.adts:
                    return tyname(x)
    raise facts.CannotDecide("no request type")


def C02(ctx, r):
    r.explain = ("For every path that writes a response, the serialised object is evaluated to a JSON term: jsonrpc must be the constant 2.0 and id the "
                 "id of the request parsed on that path (null when the request has none or did not parse). The id's representations are checked to be "
                 "written as they were read.")
    Sv = ctx.S
    n = 0
    for reqok in ("Ok", "Err"):
        for a, pc, j, f in ctx.answers(request=reqok, version=None):
            if j is None:
                r.undecide("a response is not built by serde_json::to_string (%s)" % scenario(ctx, a))
                continue
            n += 1
            sc = scenario(ctx, a)
            q = [x for x in Sv.reqs if x in set(subterms(a.pc))] or [x for x in Sv.reqs]
            exp = NULL if reqok == "Err" else None
            act = member(j, "id")
            if exp is None:
                es = [expected_id(ctx, r, x) for x in q]
                exp = next((e for e in es if not diff(act, e)), es[0])
            site = a.writes[0].site
            before = len(r.violations)
            ctx.compare(r, "id of the response (%s)" % sc, act, exp, site=site)
            ctx.compare(r, "jsonrpc of the response (%s)" % sc, member(j, "jsonrpc"), S("2.0"), site=site)
    r.count("responses", n)
    r.floor("responses", 4, "responses")
    # the id type keeps every id
    rq = request_type(ctx)
    ty = ctx.W.reads(rq)["fields"]["id"]["ty"]
    from lb.wire import tyname, tyargs
    while tyname(ty) in (OPT,) or tyname(ty).endswith(("Cow", "Box")):
        ty = tyargs(ty)[0]
    idt = tyname(ty)
    a = ctx.prog.adts.get(idt)
    if a is None:
        r.undecide("id type %s is not local" % ty)
        return
    tags = ctx.W.tags(idt)
    if tags is None:
        r.undecide("id type: how it is written is not understood")
        return
    r.count("id_forms", len(tags))
    for v, (form, tag, name, payload, site) in tags.items():
        if form in ("unit", "tagged", "newtype"):
            r.violate("id-form:%s" % v, "an id read as %s is written in another form (%s)" % (v, form), where(site))
    texts = [ft for vr in a["variants"] for _, ft in vr["fields"]]
    ints = [t for t in texts if t in ("i64", "u64", "i128", "u128", "serde_json::Number", "serde_json::Value")]
    if not ints and any(t in ("i8", "i16", "i32", "u8", "u16", "u32") for t in texts) and any(t in ("f64", "f32") for t in texts):
        r.violate("id-narrow", "integer ids beyond %s are read as floating point and come back changed" %
                  ", ".join(t for t in texts if t[0] in "iu"), {"function": idt, "file": a.get("span", ["?"])[0] if a.get("span") else None})
    for b in ctx.prog.bodies.values():
        if b["kind"] == "poly" and b["path"].endswith("::deserialize") and "for %s" % idt in b["path"]:
            first = reading_order(ctx.prog, b)
            for f_, i_, site in first:
                r.violate("id-order", "an integer id is read as floating point (%s is tried before %s) and comes back changed" % (f_, i_),
                          {"function": b["path"], "file": site[0], "line": site[1]})
            r.count("id readers")
    if [t for t in texts if t.replace("&'a ", "&").startswith("&") and t.endswith("str")]:
        r.violate("id-text", "a string id with escape sequences cannot be read (borrowed text), so the response has no id", {"function": idt, "file": None})


FLOATS, INTS = ("f64", "f32"), ("i64", "u64", "i128", "u128", "i32", "u32", "serde_json::Number", "serde_json::Value")


def reading_order(p, b):
    """readings of a number as floating point that are tried before one as an integer"""
    cfg = p.cfg(b)
    reads = {}
    for n in cfg.reach:
        t = b["blocks"][n]["t"]
        if t[0] == "call" and t[1][0] == "k" and t[1][1].get("fn", {}).get("path") == "serde::Deserialize::deserialize":
            ty = (t[1][1]["fn"].get("gargs") or [""])[0]
            if ty in FLOATS + INTS:
                reads[n] = (ty, t[5] if len(t) > 5 else ["?", 0])

    def after(n):
        seen, todo = set(), list(cfg.succ[n])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += cfg.succ[x]
        return seen
    out = []
    for f, (ty, site) in reads.items():
        if ty in FLOATS:
            for i in after(f):
                if i in reads and reads[i][0] in INTS and f not in after(i):
                    out.append((ty, reads[i][0], site))
    return out


# ---- C03 ----------------------------------------------------------------------------------------
def code(ctx, r, label, want, kw, data=None):
    rs = ctx.answers(**kw)
    if not rs:
        r.undecide("%s: no answer found" % label)
        return
    for a, pc, j, f in rs:
        if j is None:
            r.undecide("%s: response not understood" % label)
            continue
        r.count("answers")
        site = a.writes[0].site
        got = member(member(j, "error"), "code")
        exp = ABSENT if want is None else K(want)
        res = member(j, "result")
        if want is None:
            if any(l is ABSENT for l in leaves(res)) or any(l is not ABSENT for l in leaves(member(j, "error"))):
                c_ = got
                r.violate("%s:error" % label, "%s is answered with %s" % (label, "error " + sh(c_) if c_ is not ABSENT else "no result"), where(site))
            continue
        if any(l is not ABSENT for l in leaves(res)):
            r.violate("%s:result" % label, "%s is answered with a result" % label, where(site))
        ctx.compare(r, label + ": error code", got, exp, site=site)
        if data is not None:
            data(a, j, site)


METHODS = ["status", "parser.plugins", "parser.directives", "parser.options", "parser.format-errors", "parser.format-warnings",
           "parser.resolve-spans", "parser.create-synthetic-spans", "book"]
NEEDS_LEDGER = ["parser.plugins", "parser.directives", "parser.options", "book"]


def C03(ctx, r):
    r.explain = ("The answers to each kind of request (parse failure, wrong version, unreadable ledger, syntax errors, booking failure with and without "
                 "supplied directives, success) are selected from the enumerated paths of the serving loop; their error codes and whether they carry a "
                 "result are compared with the documented table.")
    Sv = ctx.S
    code(ctx, r, "an unparsable request", -32700, dict(request="Err", version=None))
    code(ctx, r, "a request of another protocol version", -32600, dict(version="another version"))
    mt, vs = method_variants(ctx)
    for n in METHODS:
        if n not in vs:
            r.violate("method:" + n, "no request method is named %s" % n, {"function": mt, "file": None})
    for n in sorted(vs):
        v = vs[n]
        r.count("methods")
        code(ctx, r, "%s with an unreadable ledger" % n, 1, dict(method=v, sources="Err"))
        if n in NEEDS_LEDGER:
            def reports(a, j, site, n=n):
                act = member(member(j, "error"), "data")
                srcs = [fld("", "errors", fld("Err", "0", p)) for p in parsed(ctx)]
                ctx.compare(r, "%s with syntax errors: reports" % n, act, each(pick_src(act, srcs), ledger.report), site=site)
            code(ctx, r, "%s with syntax errors" % n, 2, dict(method=v, sources="Ok", parse="Err"), reports)
            if n != "book":
                code(ctx, r, n, None, dict(method=v, sources="Ok", parse="Ok"))
        else:
            for p in ("Ok", "Err"):
                code(ctx, r, "%s (ledger %s)" % (n, "parsed" if p == "Ok" else "with syntax errors"), None, dict(method=v, sources="Ok", parse=p))
            x = [(j, pc) for a, pc, j, f in ctx.answers(method=v, sources="Ok", parse="Ok")]
            y = [(j, pc) for a, pc, j, f in ctx.answers(method=v, sources="Ok", parse="Err")]
            if [alpha_(j) for j, _ in x] != [alpha_(j) for j, _ in y]:
                for (j1, _), (j2, _) in zip(x, y):
                    ctx.compare(r, "%s with syntax errors" % n, j2, j1)
    # the result is the one of the method named
    x = one(ctx, r, "status", method=vs.get("status"), sources="Ok", parse="Ok")
    if x:
        ctx.compare(r, "status: result", member(x[2], "result"), NULL, site=x[0].writes[0].site)
    x = one(ctx, r, "parser.plugins", method=vs.get("parser.plugins"), sources="Ok", parse="Ok")
    if x:
        act = member(x[2], "result")
        ctx.compare(r, "parser.plugins: result", act, each(pick_src(act, list(parsed_part(ctx, "plugins"))), ledger.plugin), site=x[0].writes[0].site)
    for n, acc in (("parser.directives", "Directive::date"), ("parser.options", "Options::title"), ("parser.resolve-spans", "SyntheticSources::resolve_span"),
                   ("parser.create-synthetic-spans", "SyntheticSources::create_synthetic_span"), ("parser.format-errors", "SyntheticSources::write_report"),
                   ("parser.format-warnings", "SyntheticSources::write_report")):
        if n not in vs:
            continue
        for a, pc, j, f in ctx.answers(method=vs[n], sources="Ok", parse="Ok"):
            if j is None:
                continue
            res = member(j, "result")
            have = {t.a[0] for t in subterms(res) if t.op in ("call", "after")}
            if acc not in have:
                inner = max([l.level for l in ctx.S.loops] or [0])
                if any(t.op == "unk" for t in subterms(res)) or any(t.op == "lv" and t.a[0] > inner for t in res.lvs):
                    r.undecide("%s: result not understood" % n)
                else:
                    r.violate("%s:other" % n, "%s is answered with something else: %s" % (n, sh(res)), where(a.writes[0].site))
    # booking
    bk = vs.get("book")
    for a, pc, j, f in ctx.answers(method=bk, sources="Ok", parse="Ok") if bk else []:
        if j is None:
            r.undecide("book: response not understood")
            continue
        site = a.writes[0].site
        pars = params_atoms(ctx, pc, j)
        if not book_calls(pc, j):
            r.undecide("book: no call of the booking function on the path")
            continue
        err = member(j, "error")
        for who in ("None", "Some") if pars else (None,):
            p1, e1 = pc, err
            for d in pars:
                p1, e1 = restrict(p1, d, who), restrict(e1, d, who)
            if p1 is FALSE:
                continue
            for side in ("Ok", "Err"):
                p2, e2 = p1, e1
                for s in book_calls(p1, e1):
                    p2, e2 = restrict(p2, s, side), restrict(e2, s, side)
                if p2 is FALSE:
                    continue
                if who is None and side == "Err":
                    r.undecide("book: the error code does not depend on who supplied the directives")
                    continue
                want = ABSENT if side == "Ok" else {"None": K(2), "Some": K(3)}[who]
                r.count("booking_answers")
                lab = "book of %s directives, %s" % ("the client's" if who == "Some" else "the ledger's", "success" if side == "Ok" else "booking errors")
                ctx.compare(r, lab + ": error code", member(e2, "code"), want, site=site)
                if side == "Err":
                    d_ = member(e2, "data")
                    if not any(x.op == "fld" and x.a[1] == "errors" for x in subterms(d_)):
                        r.violate("book:data:%s" % who, "%s: the booking errors are not in the response" % lab, where(site))
    r.floor("methods", 9, "request methods")
    r.floor("booking_answers", 3, "booking answers")


def alpha_(j):
    from lb.judge import alpha
    return alpha(j) if j is not None else None


def book_calls(*ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "discr" and x.a[0] == RES and x.a[1].op == "call" and x.a[1].a[0].endswith("booking::book"):
                out.add(x)
            if x.op == "fld" and x.a[2].op == "call" and x.a[2].a[0].endswith("booking::book"):
                out.add(mk("discr", RES, x.a[2]))
    return out


def params_atoms(ctx, pc, j):
    """the questions whether the client supplied directives"""
    out = set()
    for t in (pc, j):
        for x in subterms(t):
            if x.op == "discr" and x.a[0] == OPT and x.a[1].op == "fld" and any(y in ctx.S.reqok for y in subterms(x.a[1])) and "params" in show(x.a[1], 0, 3):
                out.add(x)
    return out


# ---- C30 ----------------------------------------------------------------------------------------
def params_of(ctx, t, name):
    """the items of a request: the field of the method's payload"""
    m = method(ctx, name)
    out = []
    for x in subterms(t):
        if x.op == "fld" and x.a[1] == "params" and any(y in ctx.S.reqok for y in subterms(x)):
            out.append(x)
    return min(out, key=lambda x: x.size) if out else None


def C30(ctx, r):
    r.explain = ("The results of resolve-spans, create-synthetic-spans, format-errors and format-warnings are evaluated to terms over the request's "
                 "items: one library call per item, in order, with the item's own members, each member of the answer from the member of the same "
                 "meaning; the report text is decomposed into separator, report and annotation for the first and later items.")
    _, vs = method_variants(ctx)
    # spans
    x = result_of(ctx, r, "parser.resolve-spans", "parser.resolve-spans")
    if x:
        act = member(x[1], "result")
        src = params_of(ctx, act, "parser.resolve-spans")
        calls = [t for t in subterms(act) if t.op == "call" and t.a[0].endswith("::resolve_span")]
        if not calls or src is None:
            r.violate("resolve:none", "resolve-spans does not resolve the spans of the request: %s" % sh(act), where(x[0][0].writes[0].site))
        else:
            c0 = calls[0]
            spanadt = c0.a[2] if len(c0.a) > 2 else None

            def item(e):
                s = c(c0.a[0], c0.a[1], like_span(spanadt, e))
                return O(content=fld("", "content", s), end_line=fld("", "end_line", s), start_line=fld("", "start_line", s), file_name=opt(fld("", "file_name", s)))
            r.count("services")
            ctx.compare(r, "resolve-spans", act, each(src, item), judge=state_judge(ctx), site=x[0][0].writes[0].site)
    x = result_of(ctx, r, "parser.create-synthetic-spans", "parser.create-synthetic-spans")
    if x:
        act = member(x[1], "result")
        src = params_of(ctx, act, "parser.create-synthetic-spans")
        calls = [t for t in subterms(act) if t.op == "call" and t.a[0].endswith("::create_synthetic_span")]
        if not calls or src is None:
            r.violate("create:none", "create-synthetic-spans does not create the spans of the request: %s" % sh(act), where(x[0][0].writes[0].site))
        else:
            c0 = calls[0]
            rd = ctx.W.reads("api::types::SyntheticSpan") or {"fields": {}}
            nm = rd["fields"].get("name", {}).get("field", "name")
            ct = rd["fields"].get("content", {}).get("field", "content")

            def item(e):
                st = state_arg(c0)
                return ledger.span(c(c0.a[0], st, fld("", nm, e), fld("", ct, e)))
            r.count("services")
            ctx.compare(r, "create-synthetic-spans", forget_state(act), forget_state(each(src, item)), judge=state_judge(ctx), site=x[0][0].writes[0].site)
    # reports
    for n, kind in (("parser.format-errors", "ErrorKind"), ("parser.format-warnings", "WarningKind")):
        x = result_of(ctx, r, n, n)
        if not x:
            continue
        act = member(x[1], "result")
        r.count("services")
        reports(ctx, r, n, act, x[0][0])
        v = vs.get(n)
        for cl in ctx.S.I.calls:
            if cl["name"].endswith("::write_report"):
                ms = [s for s in ctx.S.methods]
                here = [f for s in ms for f in [forced(cl["pc"]).get(s)] if f]
                if v in here:
                    g = cl["fn"]["gargs"]
                    ks = [y for y in g if "ErrorKind" in y or "WarningKind" in y]
                    r.count("report_kinds")
                    if ks and not any(y.endswith(kind) for y in ks):
                        r.violate("%s:kind" % n, "%s formats its reports as %s" % (n, ks[0]), where(cl["site"]))
    # the report handed to the library is the one of the request
    for b in ctx.prog.bodies.values():
        if b["kind"] == "poly" and (b.get("impl_trait") or "").endswith("::Report") and "beancount_parser_lima" in (b.get("impl_trait") or ""):
            from lb.wire import tyname
            ty = tyname(b["impl_self"])
            mname = b["path"].split("::")[-1]
            rd = ctx.W.reads(ty)
            if not rd or not rd.get("fields"):
                continue
            f = rd["fields"].get(mname)
            if not f:
                continue
            report_accessor(ctx, r, b, mname, f)
    r.floor("services", 4, "services")


def like_span(sp, e):
    if sp is not None and is_adt(sp):
        return adt(sp.a[0], sp.a[1], sp.a[2], [fld("", n, e) for n in sp.a[2]])
    return e


def state_arg(c0):
    return c0.a[1]


def state_judge(ctx):
    from lb.judge import Judge
    j = ctx.judge
    jj = Judge(lambda n: j.accessor(n) or n.endswith(("resolve_span", "create_synthetic_span", "write_report")))
    base = jj.opaque
    jj.opaque = lambda t: [x for x in base(t) if x.op not in ("lv", "after", "loopout")]
    return jj


def forget_state(t):
    """the library's own state is not looked into"""
    def f(x):
        if x.op == "call" and x.a[0].endswith("create_synthetic_span"):
            return mk("call", x.a[0], mk("param", "sources"), *x.a[2:])
        return x
    return rewrite(t, f)


def report_accessor(ctx, r, b, mname, f):
    from engine.interp import Interp
    I = Interp(ctx.prog)
    self_ = mk("param", "self")
    try:
        outs = I.entry(b, [self_])
    except Exception as e:
        r.undecide("report accessor %s: %r" % (mname, e))
        return
    r.count("report_accessors")
    vals = [v for _, v in outs]
    if len(vals) != 1:
        r.undecide("report accessor %s has %d outcomes" % (mname, len(vals)))
        return
    v = I.freeze(outs[0][0], I.models.D(I, outs[0][0], vals[0]), None)
    v = ctx.J(v)
    x = fld("", f["field"], self_)
    if mname == "span":
        exp = [adt("beancount_parser_lima::Span", "", ("source", "start", "end"), [fld("", n, x) for n in ("source", "start", "end")]), x]
    elif mname in ("contexts", "related"):
        y = fld("Some", "0", x)

        def pair(e):
            p = fld("", "1", e)
            return mk("arr", fld("", "0", e), adt("beancount_parser_lima::Span", "", ("source", "start", "end"), [fld("", n, p) for n in ("source", "start", "end")]))
        exp = [case(mk("discr", OPT, x), {"Some": each(y, pair), "None": EMPTYSEQ})]
    else:
        exp = [x]
    if any(not diff(v, e) for e in exp):
        return
    from lb.judge import Judge
    j = Judge(lambda n: False)
    for d in diff(v, exp[0]):
        if j.verdict(d) == "differs":
            r.violate("report:%s" % mname, "the %s of a report to format is %s, not its own" % (mname, sh(d.act)), where((b["path"],) + tuple(b["span"][:2])))
        else:
            r.undecide("report accessor %s: %s" % (mname, sh(d.act)))


def pieces(t, buf):
    """text appended to a buffer, or None"""
    if t is buf:
        return []
    if t.op == "cat":
        out = pieces(t.a[0], buf)
        if out is None:
            return None
        for x in t.a[1:]:
            if x.op != "seq":
                return None
            for y in x.a:
                out = out + [("text", tuple(merge_strs(flat_text(y))))]
        return out
    if t.op == "seq":
        return None
    if t.op == "after" and t.a[0].endswith("write_report"):
        p = pieces(t.a[3], buf)
        return None if p is None else p + [("report", t.a[4])]
    return None


def reports(ctx, r, n, act, a):
    site = a.writes[0].site
    ls = [x for x in subterms(act) if x.op == "loopout" and any(y.op in ("after", "call") and y.a[0].endswith("write_report") for y in subterms(x))]
    if len(ls) != 1:
        r.undecide("%s: reports are not gathered in one loop" % n)
        return
    l = ls[0]
    L, src, init, var, body = l.a[0], l.a[1], l.a[2], l.a[3], l.a[4]
    want = params_of(ctx, act, n)
    if src is not want:
        r.violate("%s:items" % n, "%s goes through %s, not the reports of the request" % (n, sh(src)), where(site))
        return
    if init is not EMPTYSEQ and init is not S(""):
        r.violate("%s:init" % n, "%s starts with %s" % (n, sh(init)), where(site))
    wrap = act
    if not (wrap.op == "call" and wrap.a[0] == "utf8_lossy" and wrap.a[1] is l) and wrap is not l:
        extra = [x for x in leaves(wrap)]
        if not any(x.op == "unk" for x in subterms(wrap)):
            r.undecide("%s: the text is processed further: %s" % (n, sh(wrap)))
    e = mk("elem", L, src)
    firsts = [s for s in body.sc | BOOLS_IN(body) if s.op == "isfirst" or (s.op in ("lt", "isempty", "eq") and any(y.op == "idx" or y is var for y in subterms(s)))]
    anns = [s for s in body.sc if s.op == "discr" and s.a[0] == OPT and s.a[1].op == "fld" and s.a[1].a[2] is e]
    rest = [s for s in body.sc | BOOLS_IN(body) if s not in firsts and s not in anns and s in body.sc]
    rest = [s for s in rest if not (s.op == "discr" and s.a[0] == RES)]
    if rest or len(firsts) > 1 or len(anns) > 1:
        for x in rest:
            on = decided_by(ctx, x, e, a)
            if on is not None:
                r.violate("%s:depends" % n, "%s: the text depends on %s, not only on the reports, their order and annotations" % (n, sh(on, 100)), where(site))
                return
        for x in rest:
            for an in anns[:1]:
                if an.a[1] in set(subterms(x)):
                    with_, none = restrict(body, an, "Some"), restrict(body, an, "None")
                    labs = {l for _, it, d in [case_items(y) for y in subterms(with_) if y.op == "case" and y.a[0] is x] for l in it}
                    if any(restrict(with_, x, l) is none for l in labs | {0, 1}) and with_ is not none:
                        r.violate("%s:annotation" % n, "%s: an annotation is left out depending on %s" % (n, sh(x, 100)), where(site))
                        return
        r.undecide("%s: the text depends on %s" % (n, ", ".join(sh(x, 60) for x in rest + firsts[1:] + anns[1:])))
        return
    b0 = body
    for s in body.sc:
        if s.op == "discr" and s.a[0] == RES:
            b0 = restrict(b0, s, "Ok")
    if not anns:
        r.violate("%s:annotation" % n, "%s never appends the annotation of a report" % n, where(site))
        return
    if not firsts:
        fs = [(None, None)]
    else:
        s = firsts[0]
        truth = 1 if s.op in ("isfirst", "isempty") else (1 if s.op == "eq" else 0)
        fs = [(s, truth), (s, 1 - truth)]
    for i, (s, lab) in enumerate(fs):
        b1 = restrict(b0, s, lab) if s is not None else b0
        for side in ("None", "Some"):
            b2 = restrict(b1, anns[0], side)
            ps = pieces(b2, var)
            if ps is None:
                r.undecide("%s: text of one report is not understood: %s" % (n, sh(b2)))
                continue
            r.count("report_texts")
            rep = [("report", e)]
            sepa = [] if i == 0 else [("text", (S("\n"),))]
            ann = [("text", (fld("Some", "0", anns[0].a[1]), S("\n")))] if side == "Some" else []
            exp = sepa + rep + ann
            if len(fs) == 1:
                r.violate("%s:separator" % n, "%s does not separate reports" % n, where(site))
                continue
            if join_texts(ps) != join_texts(exp):
                r.violate("%s:text:%s:%s" % (n, "first" if i == 0 else "later", side),
                          "%s: text of a %s report %s annotation is %s where %s is expected" % (n, "first" if i == 0 else "later", "with" if side == "Some" else "without",
                                                                                              show_pieces(ps, e), show_pieces(exp, e)), where(site))


def decided_by(ctx, x, e, a):
    """what a condition on the text of a report depends on besides the place of the report, if that is settled"""
    from lb.judge import Judge
    j = Judge(lambda n: ctx.judge.accessor(n))
    own = lambda t: rewrite(t, lambda y: mk("param", "report") if y is e or y.op == "elem" and y.a[0] == e.a[0] else y, {})
    if not any(y.op == "lv" for y in subterms(x)):
        return x if any(y is e for y in subterms(x)) and not j.opaque(own(x)) else None
    if x.op != "lv":
        return None
    for rec in ctx.S.I.loops:
        for lv, init, nxt in rec.W.values():
            if lv is not x or nxt is None:
                continue
            o = own(nxt)
            if o is not nxt and not any(y.op == "lv" for y in subterms(o)) and not j.opaque(o):
                return nxt
    return None


def join_texts(ps):
    out = []
    for k, x in ps:
        if k == "text" and out and out[-1][0] == "text":
            out[-1] = ("text", tuple(merge_strs(list(out[-1][1]) + list(x))))
        else:
            out.append((k, x))
    return out


def show_pieces(ps, e):
    return " + ".join("the report" if k == "report" and x is e else ("report " + sh(x) if k == "report" else " + ".join(sh(y, 60) for y in x)) for k, x in ps)
