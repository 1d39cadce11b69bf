"""Transfer functions of library calls, keyed by the last two path segments."""
from .terms import *
from . import interp as I_

MODELS = {}
LOCAL = {}
PURE = set()
EFFECTFUL = {
    "io::_print", "io::_eprint", "Write::write_fmt", "Write::write_all", "Write::write", "Write::flush", "BufRead::read_line",
    "Read::read_to_string", "Read::read_to_end", "Command::output", "Command::status", "Command::spawn", "CommandExt::exec",
    "SyntheticSources::create_synthetic_span", "SyntheticSources::write_report", "env::set_var", "fs::write", "fs::read_to_string",
    "subscriber::set_global_default", "BufRead::lines", "Lines::next", "io::read_to_string",
}
DIVERGES = {"process::exit", "process::abort", "CommandExt::exec_"}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def D(I, st, v):
    return I.deref_val(st, v)


def mod(st):
    return I_.State(dict(st.mem), st.pc, st.eff)


def const1(f):
    """model of a pure function of its (dereferenced) arguments"""
    def g(I, st, a, fn, site):
        return f(*[D(I, st, x) for x in a])
    return g


def pure(*names):
    def d(f):
        for n in names:
            MODELS[n] = const1(f)
        return f
    return d


# ---- identities ---------------------------------------------------------------------------------
IDENT = ["Clone::clone", "Into::into", "From::from", "AsRef::as_ref", "Deref::deref", "Borrow::borrow", "ToOwned::to_owned",
         "Cow::into_owned", "Cow::to_mut", "Option::as_ref", "Option::copied", "Option::cloned", "Option::as_deref", "Spanned::item",
         "String::as_str", "Result::as_ref", "Result::copied", "Result::cloned", "Result::as_deref",
         "Box::new", "Rc::new", "Arc::new", "hint::must_use", "Vec::as_slice", "<impl [T]>::to_vec", "<impl [T]>::into_vec", "String::into_boxed_str",
         "<impl str>::to_owned", "str::to_owned", "<impl str>::as_ref", "String::into_bytes", "String::as_bytes", "<impl str>::as_bytes", "<impl str>::into_string",
         "OsStr::new", "Path::new", "Path::to_path_buf", "OsString::from", "PathBuf::from", "String::from", "convert::identity", "mem::ManuallyDrop",
         "Vec::into_boxed_slice", "BorrowMut::borrow_mut", "Iterator::by_ref_", "String::as_ref", "str::as_ref", "Path::as_os_str", "PathBuf::as_path",
         "OsStr::to_os_string", "PathBuf::into_os_string", "Option::into", "Vec::from", "<impl [T]>::as_ref", "Cow::as_ref", "Spanned::as_ref", "Vec::leak", "Box::from",
         "Wrapping::new", "Cow::from"]


@m(*IDENT)
def identity(I, st, a, fn, site):
    if fn.get("inst") is not None:
        return None
    v = a[0]
    if norm_trait(fn) == "Deref::deref" or True:
        v = D(I, st, v) if v.op == "ref" or v.op == "case" else v
    return v


def norm_trait(fn):
    return I_.norm(fn["path"])


@m("AsMut::as_mut", "DerefMut::deref_mut", "Vec::as_mut_slice", "Option::as_deref_mut", "IndexMut::as_mut", "<impl [T]>::as_mut")
def ident_mut(I, st, a, fn, site):
    # a mutable view of the same place; if the place holds a reference, of what it refers to
    r = a[0]
    v = I.read_ref(st, r) if r.op == "ref" else r
    if v.op == "ref":
        return v
    return r


@m("Option::as_mut", "Result::as_mut")
def as_mut(I, st, a, fn, site):
    r = a[0]
    v = I.deref_val(st, r) if r.op != "ref" else I.read_ref(st, r)
    if v.op == "ref":
        r, v = v, I.read_ref(st, v)
    if r.op != "ref":
        return v
    if norm_trait(fn) == "Option::as_mut":
        return case_opt(v, lambda x: some(mk("ref", *(r.a + (mk("pf", OPT, "Some", "0", 0),)))))
    return dist_variants(RES, v, {"Ok": lambda x: ok(mk("ref", *(r.a + (mk("pf", RES, "Ok", "0", 0),)))),
                                 "Err": lambda x: err(mk("ref", *(r.a + (mk("pf", RES, "Err", "0", 0),))))})


def case_opt(v, fsome, fnone=None):
    return case(discr(OPT, v), {"Some": fsome(fld("Some", "0", v)), "None": fnone() if fnone else NONE}) if False else \
        gate(discr(OPT, v), {"Some": lambda: fsome(fld("Some", "0", v)), "None": (fnone or (lambda: NONE))})


def gate(d, fs):
    """evaluate per variant, lazily on feasible ones"""
    if d.op == "k":
        f = fs.get(d.a[0])
        return f() if f else BOT
    if d is BOT:
        return BOT
    vals = {l: f() for l, f in fs.items()}
    def pick(x):
        if x.op == "k":
            return vals.get(x.a[0], BOT)
        if x.op == "case":
            s, it, dd = case_items(x)
            return case(s, {k: pick(y) for k, y in it.items()}, pick(dd) if dd is not None else None)
        if x is BOT:
            return BOT
        return case(x, vals)
    return pick(d)


def dist_variants(path, v, fs):
    name = {"Ok": "0", "Err": "0", "Some": "0"}
    return gate(discr(path, v), {l: (lambda l=l, f=f: f(fld(l, "0", v))) for l, f in fs.items()})


# ---- Option / Result ----------------------------------------------------------------------------
def branch_variants(I, st, path, v, fs):
    """fs: variant -> f(State, payload) -> (State, value) or None when it diverges; merged result"""
    v = D(I, st, v)
    d = discr(path, v)
    outs = []
    for l, f in fs.items():
        c = TT_eq(d, l)
        pc = AND(st.pc, c)
        if pc is FALSE:
            continue
        payload = fld(l, "0", v) if l != "None" else None
        if payload is not None:
            payload = I_.simp_top(payload, pc)
        r = f(st.with_pc(pc) if pc is not st.pc else st, payload)
        if r is None:
            continue
        for s2, x in (r if isinstance(r, list) else [r]):
            if x is not None:
                outs.append((s2, x))
    return merge(I, outs)


def TT_eq(d, l):
    return eqlabel(d, l)


def merge(I, outs):
    """merge outcomes with equal effects"""
    if len(outs) <= 1:
        return outs
    groups = []
    for s, x in outs:
        for g in groups:
            if g[0][0].eff == s.eff:
                g.append((s, x)); break
        else:
            groups.append([(s, x)])
    res = []
    for g in groups:
        if len(g) == 1:
            res.append(g[0])
        else:
            res.append((I.merge_states([s for s, _ in g]), sel([(s.pc, x) for s, x in g])))
    return res


def V(f):
    return lambda s, x: (s, f(x))


def callf(I, f, site, wrap=lambda v: v, noarg=False):
    def g(s, x):
        outs = I.call_val(s, f, [] if noarg else [x], site)
        return [(s2, wrap(v)) for s2, v in outs if v is not None]
    return g


@m("Option::map")
def opt_map(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: NONE), "Some": callf(I, a[1], site, some)})


@m("Option::and_then")
def opt_and_then(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: NONE), "Some": callf(I, a[1], site)})


@m("Option::is_some_and")
def opt_isa(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: FALSE), "Some": callf(I, a[1], site)})


@m("Option::is_none_or")
def opt_ino(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: TRUE), "Some": callf(I, a[1], site)})


@m("Option::map_or")
def opt_map_or(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: a[1]), "Some": callf(I, a[2], site)})


@m("Option::map_or_else")
def opt_map_or_else(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": callf(I, a[1], site, noarg=True), "Some": callf(I, a[2], site)})


@m("Option::unwrap_or")
def opt_unwrap_or(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: a[1]), "Some": V(lambda x: x)})


@m("Option::unwrap_or_default")
def opt_unwrap_or_default(I, st, a, fn, site):
    t = (fn.get("gargs") or [""])[0]
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: default_of(t)), "Some": V(lambda x: x)})


@m("Option::unwrap_or_else")
def opt_unwrap_or_else(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": callf(I, a[1], site, noarg=True), "Some": V(lambda x: x)})


@m("Option::or")
def opt_or(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: a[1]), "Some": V(some)})


@m("Option::or_else")
def opt_or_else(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": callf(I, a[1], site, noarg=True), "Some": V(some)})


@m("Option::xor")
def opt_xor(I, st, a, fn, site):
    b = D(I, st, a[1])
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: b), "Some": V(lambda x: gate(discr(OPT, b), {"None": lambda: some(x), "Some": lambda: NONE}))})


@m("Option::and")
def opt_and(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: NONE), "Some": V(lambda x: a[1])})


@m("Option::filter")
def opt_filter(I, st, a, fn, site):
    def f(s, x):
        return [(s2, ITE(c, some(x), NONE)) for s2, c in I.call_val(s, a[1], [x], site) if c is not None]
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: NONE), "Some": f})


@m("Option::ok_or")
def opt_ok_or(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: err(a[1])), "Some": V(ok)})


@m("Option::ok_or_else")
def opt_ok_or_else(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": callf(I, a[1], site, err, True), "Some": V(ok)})


@m("Option::zip")
def opt_zip(I, st, a, fn, site):
    b = D(I, st, a[1])
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: NONE), "Some": V(lambda x: gate(discr(OPT, b), {"None": lambda: NONE, "Some": lambda: some(tup(x, fld("Some", "0", b)))}))})


@m("Option::flatten")
def opt_flatten(I, st, a, fn, site):
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: NONE), "Some": V(lambda x: x)})


@m("Option::transpose")
def opt_transpose(I, st, a, fn, site):
    def f(s, x):
        return (s, gate(discr(RES, x), {"Ok": lambda: ok(some(fld("Ok", "0", x))), "Err": lambda: err(fld("Err", "0", x))}))
    return branch_variants(I, st, OPT, a[0], {"None": V(lambda x: ok(NONE)), "Some": f})


@pure("Option::is_some")
def opt_is_some(o): return eqlabel(discr(OPT, o), "Some")


@pure("Option::is_none")
def opt_is_none(o): return eqlabel(discr(OPT, o), "None")


@pure("Result::is_ok")
def res_is_ok(o): return eqlabel(discr(RES, o), "Ok")


@pure("Result::is_err")
def res_is_err(o): return eqlabel(discr(RES, o), "Err")


@m("Result::map")
def res_map(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": callf(I, a[1], site, ok), "Err": V(err)})


@m("Result::map_err")
def res_map_err(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": V(ok), "Err": callf(I, a[1], site, err)})


@m("Result::and_then")
def res_and_then(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": callf(I, a[1], site), "Err": V(err)})


@m("Result::or_else")
def res_or_else(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": V(ok), "Err": callf(I, a[1], site)})


@m("Result::map_or")
def res_map_or(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": callf(I, a[2], site), "Err": V(lambda x: a[1])})


@m("Result::map_or_else")
def res_map_or_else(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": callf(I, a[2], site), "Err": callf(I, a[1], site)})


@m("Result::unwrap_or")
def res_unwrap_or(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": V(lambda x: x), "Err": V(lambda x: a[1])})


@m("Result::unwrap_or_default")
def res_unwrap_or_default(I, st, a, fn, site):
    t = (fn.get("gargs") or [""])[0]
    return branch_variants(I, st, RES, a[0], {"Ok": V(lambda x: x), "Err": V(lambda x: default_of(t))})


@m("Result::unwrap_or_else")
def res_unwrap_or_else(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": V(lambda x: x), "Err": callf(I, a[1], site)})


@m("Result::ok")
def res_ok(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": V(some), "Err": V(lambda x: NONE)})


@m("Result::err")
def res_err(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": V(lambda x: NONE), "Err": V(some)})


@m("Result::is_ok_and")
def res_ioa(I, st, a, fn, site):
    return branch_variants(I, st, RES, a[0], {"Ok": callf(I, a[1], site), "Err": V(lambda x: FALSE)})


def unwrap_(path, good, bad, label):
    def f(I, st, a, fn, site):
        v = D(I, st, a[0])
        d = discr(path, v)
        g = eqlabel(d, good)
        badpc = AND(st.pc, NOT(g))
        if badpc is not FALSE:
            I.oblige(label, site, st, badpc, (v,), g)
        pc = AND(st.pc, g)
        if pc is FALSE:
            return []
        return [(st.with_pc(pc), I_.simp_top(fld(good, "0", v), pc))]
    return f


MODELS["Option::unwrap"] = unwrap_(OPT, "Some", "None", "unwrap")
MODELS["Option::expect"] = unwrap_(OPT, "Some", "None", "expect")
MODELS["Option::unwrap_unchecked"] = unwrap_(OPT, "Some", "None", "unwrap_unchecked")
MODELS["Result::unwrap"] = unwrap_(RES, "Ok", "Err", "unwrap")
MODELS["Result::expect"] = unwrap_(RES, "Ok", "Err", "expect")
MODELS["Result::unwrap_err"] = unwrap_(RES, "Err", "Ok", "unwrap_err")
MODELS["Result::expect_err"] = unwrap_(RES, "Err", "Ok", "expect_err")


@m("Option::take", "mem::take")
def opt_take(I, st, a, fn, site):
    v = I.read_ref(st, a[0])
    st = mod(st)
    if norm_trait(fn) == "Option::take":
        I.write_ref(st, a[0], NONE)
    else:
        I.write_ref(st, a[0], default_of((fn.get("gargs") or [""])[0]))
    return [(st, v)]


@m("Option::replace", "mem::replace")
def opt_replace(I, st, a, fn, site):
    v = I.read_ref(st, a[0])
    st = mod(st)
    I.write_ref(st, a[0], some(a[1]) if norm_trait(fn) == "Option::replace" else a[1])
    return [(st, v)]


@m("mem::swap")
def mem_swap(I, st, a, fn, site):
    x, y = I.read_ref(st, a[0]), I.read_ref(st, a[1])
    st = mod(st)
    I.write_ref(st, a[0], y); I.write_ref(st, a[1], x)
    return [(st, UNIT)]


@m("mem::drop", "mem::forget")
def mem_drop(I, st, a, fn, site):
    return [(st, UNIT)]


def payload_ref(r, path, variant):
    return dist(r, lambda x: mk("ref", *(x.a + (mk("pf", path, variant, "0", 0),))) if x.op == "ref" else x)


@m("Option::insert")
def opt_insert(I, st, a, fn, site):
    st = mod(st)
    I.write_ref(st, a[0], some(a[1]))
    return [(st, payload_ref(a[0], OPT, "Some"))]


@m("Option::get_or_insert", "Option::get_or_insert_with", "Option::get_or_insert_default")
def opt_goi(I, st, a, fn, site):
    v = I.read_ref(st, a[0])
    n = norm_trait(fn)
    def none(s, x):
        if n == "Option::get_or_insert":
            return (s, a[1])
        if n == "Option::get_or_insert_with":
            return [(s2, y) for s2, y in I.call_val(s, a[1], [], site) if y is not None]
        return (s, default_of((fn.get("gargs") or [""])[0]))
    outs = branch_variants(I, st, OPT, v, {"None": none, "Some": V(lambda x: x)})
    res = []
    for s, x in outs:
        s = mod(s)
        I.write_ref(s, a[0], some(x))
        res.append((s, payload_ref(a[0], OPT, "Some")))
    return res


@m("Try::branch")
def try_branch(I, st, a, fn, site):
    v = D(I, st, a[0])
    t = (fn.get("gargs") or [""])[0]
    if "option::Option" in t.split("<")[0]:
        return gate(discr(OPT, v), {"Some": lambda: adt(CFLOW, "Continue", ("0",), (fld("Some", "0", v),)),
                                    "None": lambda: adt(CFLOW, "Break", ("0",), (NONE,))})
    return gate(discr(RES, v), {"Ok": lambda: adt(CFLOW, "Continue", ("0",), (fld("Ok", "0", v),)),
                                "Err": lambda: adt(CFLOW, "Break", ("0",), (err(fld("Err", "0", v)),))})


@m("FromResidual::from_residual")
def from_residual(I, st, a, fn, site):
    v = D(I, st, a[0])
    t = (fn.get("gargs") or [""])[0]
    if v.op == "adt" and v.a[0] == OPT or "option::Option" in t.split("<")[0]:
        return NONE
    e = fld("Err", "0", v)
    ff = fn.get("into_from")
    if ff is not None and ff in I.p.bodies:
        outs = I.exec_fn(I.p.bodies[ff], [e], st)
        return [(s, err(x)) for s, x in outs]
    return err(e)


@m("Try::from_output")
def from_output(I, st, a, fn, site):
    t = (fn.get("gargs") or [""])[0]
    return some(a[0]) if "option::Option" in t.split("<")[0] else ok(a[0])


# ---- bool ---------------------------------------------------------------------------------------
@m("<impl bool>::then_some")
def then_some(I, st, a, fn, site):
    I_.regbool(a[0])
    return ITE(a[0], some(a[1]), NONE)


@m("<impl bool>::then")
def then(I, st, a, fn, site):
    I_.regbool(a[0])
    s2, v = I.gated(st, a[0], lambda s: I.call1(s, a[1], [], site))
    return [(s2, ITE(a[0], some(v), NONE))]


# ---- comparison / arithmetic --------------------------------------------------------------------
@pure("PartialEq::eq", "<impl str>::eq", "str::eq")
def m_eq(a, b): return eq(a, b)


@pure("PartialEq::ne")
def m_ne(a, b): return NOT(eq(a, b))


@pure("PartialOrd::lt")
def m_lt(a, b): return lt(a, b)


@pure("PartialOrd::gt")
def m_gt(a, b): return lt(b, a)


@pure("PartialOrd::le")
def m_le(a, b): return NOT(lt(b, a))


@pure("PartialOrd::ge")
def m_ge(a, b): return NOT(lt(a, b))


@pure("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(a, b): return call("cmp", a, b)


@pure("Neg::neg")
def m_neg(a): return I_.neg(a)


@pure("Sub::sub")
def m_sub(a, b): return mk("sub", a, b)


@m("Add::add", "String::add")
def m_add(I, st, a, fn, site):
    x, y = D(I, st, a[0]), D(I, st, a[1])
    if any("string::String" in g for g in (fn.get("gargs") or [])[:1]):
        return fmt([disp(x) if x.op != "fmt" else x, disp(y)])
    return add(x, y)


@pure("Mul::mul")
def m_mul(a, b): return I_.arith("Mul", a, b)


@pure("Not::not")
def m_not(a):
    return NOT(a)


@pure("Decimal::abs")
def m_abs(a): return call("abs", a)


def assign(f):
    def g(I, st, a, fn, site):
        old = I.read_ref(st, a[0])
        st = mod(st)
        I.write_ref(st, a[0], f(old, D(I, st, a[1])))
        return [(st, UNIT)]
    return g


MODELS["AddAssign::add_assign"] = assign(add)
MODELS["SubAssign::sub_assign"] = assign(lambda x, y: add(x, I_.neg(y)))
MODELS["MulAssign::mul_assign"] = assign(lambda x, y: I_.arith("Mul", x, y))


# ---- strings and formatting ---------------------------------------------------------------------
@m("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex")
def fmt_arg(I, st, a, fn, site):
    v = D(I, st, a[0])
    v = I.freeze(st, v, site)
    return mk("farg", norm_trait(fn).split("new_")[1], v)


def parse_template(b):
    """-> list of str | ('arg', i, plain)"""
    out = []
    i = 0
    argi = 0
    n = len(b)
    while i < n:
        c = b[i]; i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(b[i:i + c].decode("utf8", "replace")); i += c
        elif c == 0x80:
            ln = b[i] | (b[i + 1] << 8); i += 2
            out.append(b[i:i + ln].decode("utf8", "replace")); i += ln
        else:
            plain = (c == 0xC0)
            spec = b""
            if c & 1: spec += b[i:i + 4]; i += 4
            if c & 2: spec += b[i:i + 2]; i += 2
            if c & 4: spec += b[i:i + 2]; i += 2
            if c & 8:
                argi = b[i] | (b[i + 1] << 8); i += 2
            out.append(("arg", argi, "" if not (c & 7) else "!" + spec.hex()))
            argi += 1
    return out


@m("Arguments::new")
def fmt_new(I, st, a, fn, site):
    tmpl, args = D(I, st, a[0]), D(I, st, a[1])
    if tmpl.op == "seq":
        tmpl = mk("bytes", bytes([x.a[0] for x in tmpl.a]))
    if tmpl.op != "bytes" or args.op != "seq":
        return mk("fmt?", tmpl, args)
    pieces = []
    for p in parse_template(tmpl.a[0]):
        if isinstance(p, str):
            pieces.append(S(p))
        else:
            x = args.a[p[1]]
            if x.op == "farg" and x.a[0] == "display" and not p[2]:
                pieces.append(disp(x.a[1]))
            else:
                pieces.append(mk("fspec", p[2], x))
    return fmt(pieces)


def disp(x):
    if x.op == "k" and isinstance(x.a[0], int):
        return S(str(x.a[0]))
    return x if x.op == "str" else (mk("disp", x))


def fmt(pieces):
    out = []
    for p in pieces:
        if p.op == "disp" and p.a[0].op == "fmt":
            out.extend(p.a[0].a)
        elif p.op == "disp" and p.a[0].op == "str":
            out.append(p.a[0])
        elif p.op == "fmt":
            out.extend(p.a)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == "str":
            if not p.a[0]:
                continue
            if res and res[-1].op == "str":
                res[-1] = S(res[-1].a[0] + p.a[0]); continue
        res.append(p)
    if not res:
        return S("")
    if len(res) == 1 and res[0].op == "str":
        return res[0]
    return mk("fmt", *res)


@m("Arguments::from_str", "Arguments::from_str_nonconst")
def fmt_from_str(I, st, a, fn, site):
    return D(I, st, a[0])


@m("fmt::format")
def fmt_format(I, st, a, fn, site):
    return D(I, st, a[0])


@m("ToString::to_string")
def to_string(I, st, a, fn, site):
    v = I.freeze(st, D(I, st, a[0]), site)
    t = (fn.get("gargs") or [""])[0]
    t2 = t.lstrip("&")
    if t2 in ("str", "std::string::String", "mut str") or t2.startswith("std::borrow::Cow<") and "str" in t2:
        return v
    return fmt([disp(v)])


@pure("<impl str>::trim")
def m_trim(s): return call("trim", s)


@m("String::new")
def string_new(I, st, a, fn, site):
    return S("")


@m("String::clear")
def string_clear(I, st, a, fn, site):
    st = mod(st)
    I.write_ref(st, a[0], S(""))
    return [(st, UNIT)]


@m("String::push_str", "String::push")
def string_push(I, st, a, fn, site):
    old = I.read_ref(st, a[0])
    x = D(I, st, a[1])
    if x.op == "k" and isinstance(x.a[0], int) and fn["path"].endswith("push"):
        x = S(chr(x.a[0]))
    st = mod(st)
    I.write_ref(st, a[0], fmt([disp(old) if old.op != "fmt" else old, disp(x)]))
    return [(st, UNIT)]


@m("String::is_empty", "<impl str>::is_empty", "str::is_empty")
def str_is_empty(I, st, a, fn, site):
    v = D(I, st, a[0])
    if v.op == "str":
        return K(int(not v.a[0]))
    return mk("pred", "str_is_empty", v)


def fmt_is_empty(v): return None


# ---- default / new ------------------------------------------------------------------------------
def default_of(t):
    h = t.split("<")[0]
    last = h.split("::")[-1]
    if last in ("HashMap", "BTreeMap", "IndexMap"): return mapempty()
    if last in ("HashSet", "BTreeSet"): return toset(EMPTYSEQ)
    if last in ("Vec", "VecDeque"): return EMPTYSEQ
    if last == "Option": return NONE
    if last == "String": return S("")
    if last == "bool": return FALSE
    if last in ("usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"): return K(0)
    if t.strip("&") == "str": return S("")
    if last == "Decimal": return ZERO
    return call("default", mk("ty", h))


ZERO = K(0)


@m("Default::default")
def default(I, st, a, fn, site):
    if fn.get("inst") is not None:
        return None
    return default_of((fn.get("gargs") or [""])[0])


@m("HashMap::new", "BTreeMap::new", "HashMap::with_capacity")
def map_new(I, st, a, fn, site): return mapempty()


@m("HashSet::new", "BTreeSet::new", "HashSet::with_capacity")
def set_new(I, st, a, fn, site): return toset(EMPTYSEQ)


@m("Vec::new", "Vec::with_capacity", "VecDeque::new")
def vec_new(I, st, a, fn, site): return EMPTYSEQ


@pure("Decimal::new")
def dec_new(n, scale):
    if n is K(0) and scale is K(0):
        return ZERO
    return call("Decimal::new", n, scale)


# ---- Vec / slices -------------------------------------------------------------------------------
@m("Box::new_uninit")
def box_uninit(I, st, a, fn, site):
    I.vseq += 1
    st = mod(st)
    st.mem[("H", I.vseq)] = BOT
    return [(st, mk("ref", ("H", I.vseq)))]


@m("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "box_assume_init_into_vec_unsafe")
def box_into_vec(I, st, a, fn, site):
    v = D(I, st, a[0])
    while True:
        if v.op == "with":
            v = v.a[-1]
        elif v.op == "adt" and v.a[0].split("::")[-1] in ("MaybeUninit", "ManuallyDrop"):
            v = adt_field(v, "value")
        else:
            return v


@m("Vec::push", "VecDeque::push_back")
def vec_push(I, st, a, fn, site):
    old = I.read_ref(st, a[0])
    st = mod(st)
    x = a[1]
    I.write_ref(st, a[0], dist(old, lambda o: cat(o, seq(x))))
    return [(st, UNIT)]


@m("Vec::extend_from_slice", "Extend::extend", "Vec::append")
def vec_extend(I, st, a, fn, site):
    if norm_trait(fn) == "Vec::append":
        q = I.read_ref(st, a[1])
        st = mod(st)
        I.write_ref(st, a[1], EMPTYSEQ)
    else:
        st, q = I.to_seq(st, a[1], site)
    st = mod(st)
    old = I.read_ref(st, a[0])
    t = (fn.get("gargs") or [""])[0].lstrip("&mut ").split("<")[0].split("::")[-1]
    if t in ("HashSet", "BTreeSet"):
        nv = toset(cat(unset(old), unun(q)))
    elif t in ("HashMap", "BTreeMap"):
        nv = mk("tomap", cat(unset(old), unun(q)))
    elif t == "String":
        nv = call("str_extend", old, q)
    else:
        nv = cat(old, q)
    I.write_ref(st, a[0], nv)
    return [(st, UNIT)]


@m("Vec::len", "<impl [T]>::len", "HashMap::len", "HashSet::len", "BTreeMap::len", "BTreeSet::len", "ExactSizeIterator::len", "Iterator::count")
def vec_len(I, st, a, fn, site):
    st, q = I.to_seq(st, a[0], site)
    return [(st, length(q))]


@m("Vec::is_empty", "<impl [T]>::is_empty", "HashMap::is_empty", "HashSet::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty", "ExactSizeIterator::is_empty")
def vec_is_empty(I, st, a, fn, site):
    return isempty(D(I, st, a[0]))


@m("Vec::clear", "HashMap::clear", "HashSet::clear")
def vec_clear(I, st, a, fn, site):
    st = mod(st)
    n = norm_trait(fn)
    I.write_ref(st, a[0], EMPTYSEQ if n.startswith("Vec") else mapempty() if "Map" in n else toset(EMPTYSEQ))
    return [(st, UNIT)]


@m("Vec::pop", "Vec::remove", "Vec::insert", "Vec::truncate", "Vec::swap_remove", "Vec::retain", "Vec::dedup", "<impl [T]>::reverse", "<impl [T]>::swap", "Vec::drain", "Vec::split_off")
def vec_other(I, st, a, fn, site):
    old = I.read_ref(st, a[0])
    n = norm_trait(fn)
    vals = [I.freeze(st, D(I, st, x), site) for x in a[1:]]
    if n in ("Vec::remove", "Vec::swap_remove", "Vec::insert", "Vec::split_off") and vals and vals[0].op != "range":
        g = lt(vals[0], length(old)) if n.endswith("remove") else NOT(lt(length(old), vals[0]))
        bad = AND(st.pc, NOT(g))
        if bad is not FALSE: I.oblige(n.split("::")[1], site, st, bad, (old, vals[0]), g)
    elif n == "Vec::drain" and vals:
        I.oblige("index_range", site, st, st.pc, (old, vals[0]), mk("pred", "range_within", old, vals[0]))
    st = mod(st)
    if n == "<impl [T]>::reverse":
        I.write_ref(st, a[0], mk("rev", old))
        return [(st, UNIT)]
    I.write_ref(st, a[0], mk("after", n, 0, old, *vals))
    if n == "Vec::pop":
        return [(st, ITE(isempty(old), NONE, some(call("last", old))))]
    return [(st, call(n, old, *vals))]


@m("<impl [T]>::sort", "<impl [T]>::sort_unstable", "<impl [T]>::sort_by", "<impl [T]>::sort_by_key", "<impl [T]>::sort_unstable_by", "<impl [T]>::sort_unstable_by_key", "<impl [T]>::sort_by_cached_key", "sort_by_key")
def vec_sort(I, st, a, fn, site):
    old = I.read_ref(st, a[0])
    key = I.close_value(st, a[1], site) if len(a) > 1 else UNIT
    st = mod(st)
    I.write_ref(st, a[0], mk("sorted", norm_trait(fn).split("::")[-1].replace("_unstable", ""), old, key))
    return [(st, UNIT)]


@m("Index::index")
def vec_index(I, st, a, fn, site):
    v, i = D(I, st, a[0]), D(I, st, a[1])
    t = (fn.get("gargs") or [""])
    if "HashMap" in t[0].split("<")[0] or "BTreeMap" in t[0].split("<")[0]:
        g = m_has(v, i)
        bad = AND(st.pc, NOT(g))
        if bad is not FALSE: I.oblige("index", site, st, bad, (v, i), g)
        return m_val(v, i)
    if i.op == "adt" and i.a[0].split("::")[-1] in ("RangeTo", "RangeFull") and (not i.a[2] or i.a[3] is length(v)):
        return v
    if i.op == "range" or "Range" in (t[1] if len(t) > 1 else ""):
        g = mk("pred", "range_within", v, i)
        I.oblige("index_range", site, st, st.pc, (v, i), g)
        return call("slice", v, i)
    g = lt(i, length(v))
    bad = AND(st.pc, NOT(g))
    if bad is not FALSE: I.oblige("index", site, st, bad, (v, i), g)
    return index(v, i)


@m("IndexMut::index_mut")
def vec_index_mut(I, st, a, fn, site):
    v, i = I.read_ref(st, a[0]), D(I, st, a[1])
    if i.op == "range":
        return None
    t = (fn.get("gargs") or [""])
    if "HashMap" in t[0]:
        p = mk("pmap", i)
        g = m_has(v, i)
    else:
        p = mk("pidx", i)
        g = lt(i, length(v))
    bad = AND(st.pc, NOT(g))
    if bad is not FALSE: I.oblige("index", site, st, bad, (v, i), g)
    return dist(a[0], lambda r: mk("ref", *(r.a + (p,))))


@m("<impl [T]>::get", "Vec::get")
def vec_get(I, st, a, fn, site):
    v, i = D(I, st, a[0]), D(I, st, a[1])
    if i.op == "range" or "Range" in "".join(fn.get("gargs") or []):
        return None
    return ITE(lt(i, length(v)), some(index(v, i)), NONE)


@m("<impl [T]>::get_mut", "Vec::get_mut")
def vec_get_mut(I, st, a, fn, site):
    v, i = I.read_ref(st, a[0]), D(I, st, a[1])
    return ITE(lt(i, length(v)), some(dist(a[0], lambda r: mk("ref", *(r.a + (mk("pidx", i),))))), NONE)


@m("<impl [T]>::first")
def vec_first(I, st, a, fn, site):
    v = D(I, st, a[0])
    return ITE(isempty(v), NONE, some(index(v, K(0))))


@m("<impl [T]>::last")
def vec_last(I, st, a, fn, site):
    v = D(I, st, a[0])
    return ITE(isempty(v), NONE, some(call("last", v)))


@m("<impl [T]>::contains", "Vec::contains")
def vec_contains(I, st, a, fn, site):
    return contains(D(I, st, a[0]), D(I, st, a[1]))


# ---- sets and maps ------------------------------------------------------------------------------
@m("HashSet::contains", "BTreeSet::contains")
def set_contains(I, st, a, fn, site):
    return contains(D(I, st, a[0]), D(I, st, a[1]))


@m("HashSet::insert", "BTreeSet::insert")
def set_insert(I, st, a, fn, site):
    old = I.read_ref(st, a[0])
    st = mod(st)
    I.write_ref(st, a[0], dist(old, lambda o: toset(cat(unset(o), seq(a[1])))))
    return [(st, NOT(contains(old, a[1])))]


@m("HashSet::remove", "BTreeSet::remove")
def set_remove(I, st, a, fn, site):
    old = I.read_ref(st, a[0])
    k = D(I, st, a[1])
    st = mod(st)
    I.write_ref(st, a[0], dist(old, lambda o: mk("srem", o, k)))
    return [(st, contains(old, k))]


@m("HashMap::contains_key", "BTreeMap::contains_key")
def map_contains(I, st, a, fn, site):
    return m_has(D(I, st, a[0]), D(I, st, a[1]))


@m("HashMap::get", "BTreeMap::get")
def map_get(I, st, a, fn, site):
    mm, k = D(I, st, a[0]), D(I, st, a[1])
    return ITE(m_has(mm, k), some(m_val(mm, k)), NONE)


@m("HashMap::get_mut", "BTreeMap::get_mut")
def map_get_mut(I, st, a, fn, site):
    mm, k = I.read_ref(st, a[0]), D(I, st, a[1])
    if mm.op == "ref":
        return map_get_mut(I, st, [mm, k], fn, site)
    r = dist(a[0], lambda r: mk("ref", *(r.a + (mk("pmap", k),))))
    return ITE(m_has(mm, k), some(r), NONE)


@m("HashMap::insert", "BTreeMap::insert")
def map_insert(I, st, a, fn, site):
    mm = I.read_ref(st, a[0])
    k = a[1]
    st = mod(st)
    I.write_ref(st, a[0], m_ins(mm, k, a[2]))
    return [(st, ITE(m_has(mm, k), some(m_val(mm, k)), NONE))]


@m("HashMap::remove", "BTreeMap::remove", "HashMap::remove_entry")
def map_remove(I, st, a, fn, site):
    mm = I.read_ref(st, a[0])
    k = D(I, st, a[1])
    st = mod(st)
    I.write_ref(st, a[0], ITE(m_has(mm, k), m_rem(mm, k), mm))
    v = m_val(mm, k)
    if norm_trait(fn).endswith("remove_entry"):
        v = tup(k, v)
    return [(st, ITE(m_has(mm, k), some(v), NONE))]


ENTRY = "Entry"
UNIV["hashbrown::hash_map::Entry"] = ["Occupied", "Vacant"]
UNIV["std::collections::hash_map::Entry"] = ["Occupied", "Vacant"]
UNIV["std::collections::btree_map::Entry"] = ["Vacant", "Occupied"]


@m("HashMap::entry", "BTreeMap::entry")
def map_entry(I, st, a, fn, site):
    mm = I.read_ref(st, a[0])
    k = a[1]
    path = "hashbrown::hash_map::Entry" if "hashbrown" in fn["path"] else ("std::collections::btree_map::Entry" if "BTree" in fn["path"] else "std::collections::hash_map::Entry")
    for p in I.p.adts:
        if p.endswith("::Entry") and (("hashbrown" in p) == ("hashbrown" in fn["path"])):
            path = p
    ent = mk("mapentry", a[0], k)
    return ITE(m_has(mm, k), adt(path, "Occupied", ("0",), (ent,)), adt(path, "Vacant", ("0",), (ent,)))


def ent_of(I, st, v):
    v = D(I, st, v)
    return v.a[0], v.a[1]


def entref(r, k):
    return dist(r, lambda x: mk("ref", *(x.a + (mk("pmap", k),))))


@m("OccupiedEntry::get")
def oe_get(I, st, a, fn, site):
    r, k = ent_of(I, st, a[0])
    return m_val(I.read_ref(st, r), k)


@m("OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def oe_get_mut(I, st, a, fn, site):
    r, k = ent_of(I, st, a[0])
    return entref(r, k)


@m("OccupiedEntry::key", "VacantEntry::key", "Entry::key")
def oe_key(I, st, a, fn, site):
    v = D(I, st, a[0])
    if v.op == "mapentry":
        return v.a[1]
    return None


@m("OccupiedEntry::insert")
def oe_insert(I, st, a, fn, site):
    r, k = ent_of(I, st, a[0])
    mm = I.read_ref(st, r)
    st = mod(st)
    I.write_ref(st, r, m_ins(mm, k, a[1]))
    return [(st, m_val(mm, k))]


@m("OccupiedEntry::remove", "OccupiedEntry::remove_entry")
def oe_remove(I, st, a, fn, site):
    r, k = ent_of(I, st, a[0])
    mm = I.read_ref(st, r)
    st = mod(st)
    I.write_ref(st, r, m_rem(mm, k))
    v = m_val(mm, k)
    return [(st, tup(k, v) if norm_trait(fn).endswith("entry") else v)]


@m("VacantEntry::insert", "VacantEntry::insert_entry")
def ve_insert(I, st, a, fn, site):
    r, k = ent_of(I, st, a[0])
    mm = I.read_ref(st, r)
    st = mod(st)
    I.write_ref(st, r, m_ins(mm, k, a[1]))
    return [(st, entref(r, k) if norm_trait(fn).endswith("insert") else mk("mapentry", r, k))]


@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def ent_or_insert(I, st, a, fn, site):
    v = D(I, st, a[0])
    n = norm_trait(fn)
    ents = [l for l in leaves(v) if l.op == "adt"]
    if not ents:
        return None
    e = ents[0].a[3]
    r, k = e.a[0], e.a[1]
    mm = I.read_ref(st, r)
    h = m_has(mm, k)
    def ins(s):
        if n == "Entry::or_insert":
            return s, a[1]
        if n == "Entry::or_default":
            return s, default_of((fn.get("gargs") or ["", ""])[1] if len(fn.get("gargs") or []) > 1 else "")
        return I.call1(s, a[1], [], site)
    s2, val = I.gated(st, NOT(h), ins)
    s2 = mod(s2)
    mm = I.read_ref(s2, r)
    I.write_ref(s2, r, ITE(h, mm, m_ins(mm, k, val)))
    return [(s2, entref(r, k))]


# ---- iterators ----------------------------------------------------------------------------------
UNORD_TY = ("HashMap", "HashSet")


def is_unord_ty(t):
    t = t.lstrip("&").replace("mut ", "")
    h = t.split("<")[0]
    return h.split("::")[-1] in UNORD_TY or "hash_map::" in h or "hash_set::" in h or "hashbrown::map" in h


def as_items(v, unord):
    """a collection as the sequence of its items"""
    def g(x):
        if x.op == "adt" and x.a[0] in (OPT, RES):
            return opt_items(x)
        if unord:
            if x.op in ("unord",):
                return x
            return mk("unord", x)
        return x
    return dist(v, g)


def opt_items(x):
    return I_.opt_seq(x)


@m("IntoIterator::into_iter")
def into_iter(I, st, a, fn, site):
    if fn.get("inst") is not None:
        return None
    t = (fn.get("gargs") or [""])[0]
    v = a[0]
    if v.op == "ref":
        w = I.read_ref(st, v)
        if w.op == "it" or "Iter" in t.split("<")[0]:
            # by_ref style iteration keeps the place
            return v if t.startswith("&mut") else w
        if t.startswith("&mut"):
            return mk("iter_mut", v)
        v = w
    v = D(I, st, v)
    h = t.lstrip("&").split("<")[0]
    if v.op == "it":
        return v
    if h.endswith("option::Option"):
        return opt_as_seq(v)
    return as_items(v, is_unord_ty(t))


def opt_as_seq(v):
    return gate(discr(OPT, v), {"Some": lambda: seq(fld("Some", "0", v)), "None": lambda: EMPTYSEQ})


@m("Option::iter", "Option::into_iter")
def opt_iter(I, st, a, fn, site):
    return opt_as_seq(D(I, st, a[0]))


@m("<impl [T]>::iter", "Vec::iter", "VecDeque::iter", "slice::iter")
def slice_iter(I, st, a, fn, site):
    return D(I, st, a[0])


@m("<impl [T]>::iter_mut", "Vec::iter_mut", "HashMap::iter_mut", "HashMap::values_mut", "Option::iter_mut")
def slice_iter_mut(I, st, a, fn, site):
    return mk("iter_mut", a[0]) if a[0].op == "ref" else None


@m("HashMap::iter", "HashSet::iter", "HashMap::into_iter", "HashSet::into_iter", "HashMap::drain", "HashSet::drain")
def map_iter(I, st, a, fn, site):
    return as_items(D(I, st, a[0]), True)


@m("BTreeMap::iter", "BTreeSet::iter")
def bmap_iter(I, st, a, fn, site):
    return as_items(D(I, st, a[0]), False)


@m("HashMap::values", "HashMap::into_values", "HashMap::keys", "HashMap::into_keys", "BTreeMap::values", "BTreeMap::keys")
def map_values(I, st, a, fn, site):
    q = as_items(D(I, st, a[0]), "Hash" in norm_trait(fn))
    f = "1" if "values" in norm_trait(fn) else "0"
    lvl = I.level
    return dist(q, lambda x: comp(lvl, x, seq(fld("", f, mk("elem", lvl, x)))))


def stage(kind, closure=True):
    def f(I, st, a, fn, site):
        v = a[0]
        if v.op == "ref":
            v = I.read_ref(st, v)   # by_ref adaptors: treated as a fresh view
        if v.op == "case":
            if not any(l.op == "it" for l in leaves(v)):
                return mk("it", v, mk("st", kind, a[1]) if closure else mk("st", kind))
            return dist(v, lambda x: addstage(x, kind, a[1] if closure else None))
        return addstage(v, kind, a[1] if closure else None)
    return f


def addstage(v, kind, f):
    s = mk("st", kind, f) if f is not None else mk("st", kind)
    if v.op == "it":
        return mk("it", *(v.a + (s,)))
    return mk("it", v, s)


for k in ("map", "filter", "filter_map", "inspect", "flat_map", "skip_while", "take_while", "map_while"):
    MODELS["Iterator::" + k] = stage(k)
MODELS["Iterator::enumerate"] = stage("enumerate", False)


@m("Iterator::copied", "Iterator::cloned", "Iterator::fuse", "Iterator::by_ref", "Iterator::peekable", "ExactSizeIterator::by_ref")
def it_ident(I, st, a, fn, site):
    if norm_trait(fn) == "Iterator::by_ref":
        return a[0]
    v = a[0]
    return I.read_ref(st, v) if v.op == "ref" else v


@m("Iterator::flatten")
def it_flatten(I, st, a, fn, site):
    v = D(I, st, a[0])
    t = "".join(fn.get("gargs") or [])
    if v.op != "it":
        # flattening options or an option of a collection
        def g(x):
            if x.op == "seq":
                return cat(*[flat1(y, t) for y in x.a])
            return None
        ls = leaves(v)
        if all(l.op in ("seq", "bot") for l in ls):
            return dist(v, g)
        lvl = I.level
        return dist(v, lambda x: comp(lvl, x, flat1(mk("elem", lvl, x), t)) if x.op != "seq" else g(x))
    f = mk("flatfn", t)
    I.flat_t = t
    st2, q = I.force(st, v, site)
    if all(l.op in ("seq", "bot") for l in leaves(q)):
        return [(st2, dist(q, lambda x: cat(*[flat1(y, t) for y in x.a])))]
    lvl = I.level
    def h(x):
        if x.op == "comp":
            b = dist(x.a[2], lambda l: cat(*[flat1(y, t) for y in l.a]) if l.op == "seq" else mk("flatten", l))
            return comp(x.a[0], x.a[1], b)
        if x.op == "seq":
            return cat(*[flat1(y, t) for y in x.a])
        return comp(lvl, x, flat1(mk("elem", lvl, x), t))
    return [(st2, dist(q, h))]


def flat1(y, t):
    """one item of a flattened iterator as a sequence"""
    if y.op == "adt" and y.a[0] in (OPT, RES):
        return I_.opt_seq(y)
    if y.op == "case":
        return dist(y, lambda l: flat1(l, t))
    # option typed atoms cannot be told apart by the term alone
    if "Item = std::option::Option" in t or "std::slice::Iter<'_, std::option::Option" in t or "slice::Iter<'?, std::option::Option" in t:
        return opt_as_seq(y)
    if is_unord_deep(t):
        return mk("unord", y) if y.op != "toset" else mk("unord", y)
    return y


def is_unord_deep(t):
    return "HashSet<" in t or "HashMap<" in t


@m("Iterator::zip", "iter::zip")
def it_zip(I, st, a, fn, site):
    st, x = I.force(st, a[0], site)
    st, y = I.to_seq(st, a[1], site)
    if y.op == "range" and y.a[0] is K(0):
        pass
    return [(st, mk("zip", x, y))]


@m("Iterator::chain")
def it_chain(I, st, a, fn, site):
    st, x = I.force(st, a[0], site)
    st, y = I.to_seq(st, a[1], site)
    return [(st, dist(x, lambda p: dist(y, lambda q: cat(p, q))) if False else cat(x, y))]


@m("Iterator::rev", "DoubleEndedIterator::rev")
def it_rev(I, st, a, fn, site):
    st, x = I.force(st, a[0], site)
    return [(st, mk("rev", x))]


@m("Iterator::skip", "Iterator::take", "Iterator::step_by")
def it_skip(I, st, a, fn, site):
    st, x = I.force(st, a[0], site)
    n = a[1]
    if norm_trait(fn) == "Iterator::skip" and n is K(0):
        return [(st, x)]
    return [(st, mk(norm_trait(fn).split("::")[1], x, n))]


@m("iter::once")
def it_once(I, st, a, fn, site): return seq(a[0])


@m("iter::empty")
def it_empty(I, st, a, fn, site): return EMPTYSEQ


def coll_kind(t):
    h = t.split("<")[0].split("::")[-1]
    return h


@m("Iterator::collect", "FromIterator::from_iter")
def it_collect(I, st, a, fn, site):
    g = fn.get("gargs") or []
    if norm_trait(fn) == "Iterator::collect":
        t = g[1] if len(g) > 1 else ""
    else:
        t = g[0] if g else ""
    st, q = I.to_seq(st, a[0], site)
    return [(st, collect_to(I, q, t))]


def collect_to(I, q, t):
    h = coll_kind(t)
    if h in ("HashSet",): return toset(unun(q))
    if h == "BTreeSet": return mk("sorted", "set", q, UNIT)
    if h == "HashMap":
        # tuple identity: map(|(k,v)| (k,v))
        return mk("tomap", unun(q))
    if h == "BTreeMap": return mk("sorted", "map", q, UNIT)
    if h == "String": return call("concat", q)
    if h in ("Result", "Option"):
        inner = t[t.index("<") + 1:]
        path = RES if h == "Result" else OPT
        bad, good = ("Err", "Ok") if h == "Result" else ("None", "Some")
        if q.op == "comp":
            lvl, src, body = q.a
            if one_to_one(body):
                x = dist(body, lambda l: l.a[0])
                c = NOT(eqlabel(discr(path, x), good))
                vals = comp(lvl, src, seq_of(fld(good, "0", x)))
                good_v = collect_to(I, vals, inner)
                A = any_(lvl, src, c)
                f = mk("first", lvl, src, c)
                if h == "Option":
                    return ITE(A, NONE, some(good_v))
                m1 = {l: f for l in x.lvs if l.op == "elem" and l.a[0] == lvl}
                m1[mk("idx", lvl)] = mk("firstidx", lvl, src, c)
                e = subst(fld("Err", "0", x), m1)
                return ITE(A, err(e), ok(good_v))
        return call("collect_" + h, q)
    return q


def seq_of(x):
    return seq(x)


@m("Iterator::sum")
def it_sum(I, st, a, fn, site):
    st, q = I.to_seq(st, a[0], site)
    return [(st, dist(q, sum_of))]


def run_quant(I, st, v, site, f):
    """evaluate f(state, item) -> [(state, bool)] on the generic element. -> (state, src, level, cond over elem) or None"""
    v = D(I, st, v)
    return None


def quant(kind):
    def g(I, st, a, fn, site):
        v = D(I, st, a[0])
        src, sts = I.as_it(v)
        # as a filter whose emptiness is asked
        if kind in ("any", "all"):
            f = a[1]
            if src.op == "case" and not sts:
                st, q = I.force_pre_case(st, v, f, kind, site) if False else (st, None)
            sts2 = sts + [mk("st", "map", f)]
            st2, q = I.force(st, mk("it", src, *sts2), site)
            def h(x):
                if x.op == "seq":
                    r = FALSE if kind == "any" else TRUE
                    for y in x.a:
                        r = OR(r, y) if kind == "any" else AND(r, y)
                    return r
                if x.op == "cat":
                    r = FALSE if kind == "any" else TRUE
                    for y in x.a:
                        z = h(y)
                        r = OR(r, z) if kind == "any" else AND(r, z)
                    return r
                if x.op == "comp":
                    lvl, s, body = x.a
                    def cc(l):
                        if l.op != "seq":
                            return mk("pred", "any_in", l)
                        r = FALSE
                        for y in l.a:
                            r = OR(r, y if kind == "any" else NOT(y))
                        return r
                    c = nobot(dist(body, cc))
                    A = any_(lvl, s, c)
                    return A if kind == "any" else NOT(A)
                lvl = I.level
                e = mk("elem", lvl, x)
                BOOLS.add(e)
                A = any_(lvl, x, e if kind == "any" else NOT(e))
                return A if kind == "any" else NOT(A)
            return [(st2, dist(q, h))]
    return g


MODELS["Iterator::any"] = quant("any")
MODELS["Iterator::all"] = quant("all")


def first_of(I, q):
    """first item of a sequence as an option"""
    def h(x):
        if x.op == "seq":
            return some(x.a[0]) if x.a else NONE
        if x.op == "cat":
            r = NONE
            for y in reversed(x.a):
                f = h(y) if y.op != "case" else dist(y, h)
                r = gate(discr(OPT, f), {"Some": lambda f=f: f, "None": lambda r=r: r})
            return r
        if x.op == "comp":
            lvl, s, body = x.a
            if all(l.op in ("seq", "bot") and len(l.a) <= 1 for l in leaves(body)):
                c = nobot(dist(body, lambda l: TRUE if l.a else FALSE))
                item = dist(body, lambda l: l.a[0] if l.a else BOT)
                item = simp(item, c)
                fe = mk("first", lvl, s, c)
                mm = {l: (fe if l.a[1] is s else mk("first", lvl, l.a[1], c)) for l in item.lvs if l.op == "elem" and l.a[0] == lvl}
                mm[mk("idx", lvl)] = mk("firstidx", lvl, s, c)
                if c is TRUE:
                    mm = {l: index(l.a[1], K(0)) for l in item.lvs if l.op == "elem" and l.a[0] == lvl}
                    mm[mk("idx", lvl)] = K(0)
                return ITE(any_(lvl, s, c), some(subst(item, mm)), NONE)
        return ITE(isempty(x), NONE, some(index(x, K(0))))
    return dist(q, h)


@m("Iterator::next")
def it_next(I, st, a, fn, site):
    r = a[0]
    if r.op == "ref":
        v = I.read_ref(st, r)
        while v.op == "ref":
            r, v = v, I.read_ref(st, v)
        outs = I.next_in_loop(st, r, site)
        if outs is not None:
            return outs
        st2, q = I.to_seq(st, v, site)
        st2 = mod(st2)
        if q.op == "seq":
            I.write_ref(st2, r, seq(*q.a[1:]))
        else:
            I.write_ref(st2, r, mk("skip", q, K(1)) if q.op != "skip" or q.a[1].op != "k" else mk("skip", q.a[0], K(q.a[1].a[0] + 1)))
            if q.op == "skip" and q.a[1].op == "k":
                n = q.a[1].a[0]
                return [(st2, ITE(lt(K(n), length(q.a[0])), some(index(q.a[0], K(n))), NONE))]
        return [(st2, first_of(I, q))]
    return None


@m("Iterator::find", "Iterator::find_map")
def it_find(I, st, a, fn, site):
    r = a[0]
    v = I.read_ref(st, r) if r.op == "ref" else r
    st2, q = I.force(st, addstage(D(I, st, v), "filter" if norm_trait(fn).endswith("find") else "filter_map", a[1]), site)
    return [(st2, first_of(I, q))]


@m("Iterator::position")
def it_position(I, st, a, fn, site):
    r = a[0]
    v = I.read_ref(st, r) if r.op == "ref" else r
    v = D(I, st, v)
    src, sts = I.as_it(v)
    st2, q = I.force(st, mk("it", src, *(sts + [mk("st", "map", a[1]), mk("st", "enumerate")])), site)
    if q.op == "comp":
        lvl, s, body = q.a
        body = dist(body, lambda l: ITE(fld("", "1", l.a[0]), seq(fld("", "0", l.a[0])), EMPTYSEQ) if l.op == "seq" and l.a else l)
        q = comp(lvl, s, body)
    else:
        return None
    return [(st2, first_of(I, q))]


@m("Iterator::nth")
def it_nth(I, st, a, fn, site):
    r = a[0]
    v = I.read_ref(st, r) if r.op == "ref" else r
    st2, q = I.to_seq(st, v, site)
    return [(st2, ITE(lt(a[1], length(q)), some(index(q, a[1])), NONE))]


@m("Iterator::last")
def it_last(I, st, a, fn, site):
    st2, q = I.to_seq(st, a[0], site)
    return [(st2, last_of(q))]


def last_of(q):
    """The last element of a list, if any; of a filtered one, as a loop that keeps what it saw last leaves it."""
    if q.op == "comp":
        ls = list(leaves(q.a[2]))
        if all(x.op == "seq" for x in ls) and any(not x.a for x in ls):
            return mk("last", NONE, comp(q.a[0], q.a[1], dist(q.a[2], lambda x: seq(some(x.a[-1])) if x.a else EMPTYSEQ)))
    return ITE(isempty(q), NONE, some(call("last", q)))


@m("Iterator::for_each")
def it_for_each(I, st, a, fn, site):
    v = D(I, st, a[0])
    src, sts = I.as_it(v)
    st2, q = I.force(st, mk("it", src, *(sts + [mk("st", "map", a[1])])), site)
    return [(st2, UNIT)]


@m("Iterator::fold")
def it_fold(I, st, a, fn, site):
    # accumulate in a heap cell
    v = D(I, st, a[0])
    I.vseq += 1
    root = ("V", I.vseq)
    st = mod(st)
    st.mem[root] = a[1]
    src, sts = I.as_it(v)
    if src.op == "seq" and len(src.a) <= 8:
        return None
    pre, sp, post = I.split_stages(sts)
    if sp is not None:
        st, src = I.force(st, v, site)
        pre = []
    bs, el, cond, ix = I.open_src(src, I.level)

    def body_fn(s0, rec):
        rec.src = bs
        s1 = s0.with_pc(AND(s0.pc, rec.more))
        backs = []
        for s2, x in I.stages(s1, pre, el, ix, cond, site):
            if x is None:
                backs.append(s2)
                continue
            for s3, y in I.call_val(s2, a[2], [s2.mem[root], x], site):
                if y is None:
                    continue
                s3 = mod(s3)
                s3.mem[root] = y
                backs.append(s3)
        return backs, [("done", s0.with_pc(AND(s0.pc, NOT(rec.more))))], []
    rec = I.iterate(st, body_fn, site, drive=bs)
    if not rec.normal:
        return None
    s = rec.normal[0][1]
    q = s.mem.pop(root)
    return [(s, q)]


@m("Iterator::try_for_each", "Iterator::try_fold")
def it_try(I, st, a, fn, site):
    if norm_trait(fn) == "Iterator::try_fold":
        return None
    r = a[0]
    v = I.read_ref(st, r) if r.op == "ref" else r
    v = D(I, st, v)
    src, sts = I.as_it(v)
    pre, sp, post = I.split_stages(sts)
    if sp is not None:
        return None
    bs, el, cond, ix = I.open_src(src, I.level)

    def body_fn(s0, rec):
        rec.src = bs
        s1 = s0.with_pc(AND(s0.pc, rec.more))
        backs, exits = [], []
        for s2, x in I.stages(s1, pre, el, ix, cond, site):
            if x is None:
                backs.append(s2); continue
            for s3, y in I.call_val(s2, a[1], [x], site):
                if y is None: continue
                g = eqlabel(discr(RES, y), "Ok")
                p1 = AND(s3.pc, g)
                if p1 is not FALSE:
                    backs.append(s3.with_pc(p1))
                p0 = AND(s3.pc, NOT(g))
                if p0 is not FALSE:
                    s4 = s3.with_pc(p0)
                    s4.mem[("V", "tfe")] = I_.simp_top(err(fld("Err", "0", y)), p0)
                    exits.append(("err", s4))
        exits.append(("done", s0.with_pc(AND(s0.pc, NOT(rec.more)))))
        return backs, exits, []
    rec = I.iterate(st, body_fn, site, drive=bs)
    outs = []
    for tgt, s in rec.normal + rec.early:
        if tgt == "done":
            outs.append((s, ok(UNIT)))
        else:
            s = mod(s)
            outs.append((s, s.mem.pop(("V", "tfe"))))
    return merge(I, outs)


@m("Iterator::unzip", "Iterator::partition", "Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::reduce")
def it_consume(I, st, a, fn, site):
    st, q = I.to_seq(st, a[0], site)
    if norm_trait(fn) == "Iterator::unzip" and q.op == "comp":
        l, s, b = q.a
        return [(st, tup(comp(l, s, dist(b, lambda x: seq(*[fld("", "0", y) for y in x.a]))), comp(l, s, dist(b, lambda x: seq(*[fld("", "1", y) for y in x.a])))))]
    vals = [I.close_value(st, x, site) for x in a[1:]]
    return [(st, call(norm_trait(fn), q, *vals))]


# ---- function traits ----------------------------------------------------------------------------
@m("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def fn_call(I, st, a, fn, site):
    args = D(I, st, a[1])
    return I.call_val(st, a[0], list(args.a) if args.op == "tup" else [args], site)


# ---- processes, io ------------------------------------------------------------------------------
@m("process::exit", "process::abort")
def proc_exit(I, st, a, fn, site):
    if not I.quiet:
        I.exits.append({"kind": norm_trait(fn), "args": tuple(a), "site": site, "state": st, "stack": tuple(I.stack)})
    return []


@m("panicking::panic_fmt", "panicking::panic", "panicking::panic_display", "panicking::unreachable_display", "panicking::panic_str_2015", "panicking::panic_explicit",
   "panicking::assert_failed", "rt::panic_fmt", "panicking::begin_panic", "option::expect_failed", "option::unwrap_failed", "result::unwrap_failed")
def panic(I, st, a, fn, site):
    before = I.came.get(I.at)
    I.oblige("panic", site, st, st.pc, tuple(I.freeze(st, D(I, st, x), site) for x in a),
             NOT(rel(st.pc, before)) if before is not None else None, before)
    return []


@m("serde_json::to_writer", "ser::to_writer")
def to_writer(I, st, a, fn, site):
    """the text of to_string, written"""
    tgt = a[0]
    base = I.read_ref(st, tgt) if tgt.op == "ref" else tgt
    while base.op == "ref":
        tgt, base = base, I.read_ref(st, base)
    val = simp(I.freeze(st, D(I, st, a[1]), site), st.pc)
    ser = call("serde_json::to_string", val)
    text = fld("Ok", "0", ser)
    t = (fn.get("gargs") or [""])[0]
    st = mod(st)
    if "Vec<u8" in t:
        I.write_ref(st, tgt, buf_append(base, text))
        return [(st, ITE(eqlabel(mk("discr", RES, ser), "Ok"), ok(UNIT), err(fld("Err", "0", ser))))]
    n = "Write::write_all"
    st.eff = st.eff + (I_.Eff("write", (n, base, text), site, st.pc),)
    r = call("io_result", mk("ty", n), base, text)
    if not I.quiet:
        I.calls.append({"name": n, "path": fn["path"], "args": (base, text), "site": site, "pc": st.pc, "res": r, "fn": fn, "stack": tuple(I.stack)})
    return [(st, r)]


@m("serde_json::to_vec", "ser::to_vec")
def to_vec(I, st, a, fn, site):
    """the bytes of to_string"""
    return [(st, call("serde_json::to_string", simp(I.freeze(st, D(I, st, a[0]), site), st.pc)))]


@m("Write::write_fmt", "Write::write_all", "Write::write", "Write::flush")
def write_fmt(I, st, a, fn, site):
    tgt = a[0]
    base = I.read_ref(st, tgt) if tgt.op == "ref" else tgt
    while base.op == "ref":
        tgt, base = base, I.read_ref(st, base)
    t = (fn.get("gargs") or [""])[0]
    vals = [simp(I.freeze(st, D(I, st, x), site), st.pc) for x in a[1:]]
    n = norm_trait(fn)
    if "Vec<u8" in t or t.endswith("String"):
        # in-memory buffer: cannot fail
        st = mod(st)
        payload = vals[0]
        if payload.op in ("bytes",):
            payload = S(payload.a[0].decode("utf8", "replace"))
        I.write_ref(st, tgt, buf_append(base, payload))
        return [(st, ok(UNIT))]
    if base.op == "fmtbuf":
        pass
    st = mod(st)
    st.eff = st.eff + (I_.Eff("flush" if n.endswith("::flush") else "write", (n, base) + tuple(vals), site, st.pc),)
    r = call("io_result", mk("ty", n), base, *vals)
    if not I.quiet:
        I.calls.append({"name": n, "path": fn["path"], "args": (base,) + tuple(vals), "site": site, "pc": st.pc, "res": r, "fn": fn, "stack": tuple(I.stack)})
    return [(st, r)]


def buf_append(base, payload):
    """byte buffers are sequences of pieces"""
    def g(b):
        return cat(b, seq(mk("text", payload)))
    return dist(base, g)


@m("Formatter::write_fmt", "Formatter::write_str")
def formatter_write(I, st, a, fn, site):
    st = mod(st)
    v = simp(I.freeze(st, D(I, st, a[1]), site), st.pc)
    st.eff = st.eff + (I_.Eff("write", ("Formatter::write", mk("param", "formatter"), v), site, st.pc),)
    return [(st, call("io_result", mk("ty", "fmt"), v))]


@m("String::from_utf8_lossy")
def from_utf8_lossy(I, st, a, fn, site):
    v = D(I, st, a[0])
    return call("utf8_lossy", v)


# std::process::Command as a value: program and argument list
@m("Command::new")
def cmd_new(I, st, a, fn, site):
    if "process" not in fn["path"]:
        return None
    return adt("Command", "", ("program", "args"), (D(I, st, a[0]), EMPTYSEQ))


@m("Command::arg", "Command::args")
def cmd_arg(I, st, a, fn, site):
    if "process" not in fn["path"]:
        return None
    if norm_trait(fn) == "Command::args":
        st, q = I.to_seq(st, a[1], site)
    else:
        q = seq(D(I, st, a[1]))
    st = mod(st)
    old = I.read_ref(st, a[0])
    if any(l.op != "adt" for l in leaves(old)):
        return None
    def g(c):
        return adt("Command", "", ("program", "args"), (adt_field(c, "program"), cat(adt_field(c, "args"), q)))
    I.write_ref(st, a[0], dist(old, g))
    return [(st, a[0])]


@m("Command::output", "Command::status", "CommandExt::exec", "Command::spawn")
def cmd_run(I, st, a, fn, site):
    if "rocess" not in fn["path"]:
        return None
    v = simp(I.freeze(st, D(I, st, a[0]), site), st.pc)
    st = mod(st)
    n = norm_trait(fn)
    st.eff = st.eff + (I_.Eff("run", (n, v), site, st.pc),)
    r = call(n, v)
    if not I.quiet:
        I.calls.append({"name": n, "path": fn["path"], "args": (v,), "site": site, "pc": st.pc, "res": r, "fn": fn, "stack": tuple(I.stack)})
    return [(st, r)]


@m("Command::get_program")
def cmd_prog(I, st, a, fn, site):
    v = D(I, st, a[0])
    return dist(v, lambda c: adt_field(c, "program") if c.op == "adt" else call("get_program", c))


@m("io::_print", "io::_eprint")
def m_print(I, st, a, fn, site):
    v = simp(I.freeze(st, D(I, st, a[0]), site), st.pc)
    st = mod(st)
    st.eff = st.eff + (I_.Eff("print", (norm_trait(fn), v), site, st.pc),)
    return [(st, UNIT)]


@m("intrinsics::discriminant_value", "mem::discriminant")
def discriminant(I, st, a, fn, site):
    v = D(I, st, a[0])
    t = (fn.get("gargs") or [""])[0].split("<")[0]
    return discr(t, v)


@m("Range::clone", "RangeInclusive::new")
def m_range(I, st, a, fn, site):
    if norm_trait(fn) == "RangeInclusive::new":
        return mk("range", a[0], add(a[1], K(1)))
    return D(I, st, a[0])


@m("Range::is_empty", "ExactSizeIterator::is_empty_")
def m_range_empty(I, st, a, fn, site):
    v = D(I, st, a[0])
    if v.op == "range":
        return NOT(lt(v.a[0], v.a[1]))
    return None


@m("<impl str>::starts_with", "str::starts_with", "<impl str>::ends_with", "<impl str>::contains", "<impl str>::eq_ignore_ascii_case", "<impl char>::is_whitespace")
def str_pred(I, st, a, fn, site):
    vals = [I.freeze(st, D(I, st, x), site) for x in a]
    return mk("pred", norm_trait(fn).split("::")[-1], *vals)


@m("<impl str>::strip_prefix", "str::strip_prefix")
def strip_prefix(I, st, a, fn, site):
    s, p = D(I, st, a[0]), D(I, st, a[1])
    return ITE(mk("pred", "starts_with", s, p), some(call("strip_prefix", s, p)), NONE)


def find(fn):
    return None
