"""C10: amounts stay exact decimals."""
import json
import os
import re
import subprocess
from engine.terms import *
from lb.ctx import where
from lb.judge import sh
from lb.wire import tyname, tyargs
from lb import facts

ROUND = {"round", "round_dp", "round_dp_with_strategy", "round_sf", "round_sf_with_strategy", "trunc", "trunc_with_scale", "rescale", "normalize", "normalize_assign",
         "floor", "ceil", "fract", "set_scale"}
FLOATS = ("f32", "f64")
COMPARE = ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "is_zero", "is_sign_negative", "is_sign_positive", "is_some", "is_none")


def calls(b):
    for blk in b["blocks"]:
        t = blk["t"]
        if t and t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            yield t[1][1]["fn"], t[2], t[3], t[-1]


def has_ty(s, names):
    return any(x in names for x in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", s or ""))


def is_decimal_fn(path):
    return "rust_decimal::" in path


def operand_locals(o):
    """locals that an operand or place mentions"""
    out = []
    if isinstance(o, list):
        if len(o) == 2 and isinstance(o[0], int) and isinstance(o[1], list):
            out.append(o[0])
        for x in o:
            out += operand_locals(x)
    return out


def only_compared(b, dest):
    """is the value of a local only compared with others in this body"""
    seen, todo = set(), [dest]
    used = False
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            return False
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] == "=" and l in operand_locals(s[2]):
                    used = True
                    todo.append(s[1][0])
            t = blk["t"]
            if t and t[0] == "call" and any(l in operand_locals(a) for a in t[2]):
                used = True
                fn = t[1][1].get("fn") if t[1][0] == "k" else None
                if fn is None or fn["path"].split("::")[-1] not in COMPARE:
                    return False
    return used


def id_types(p):
    """types through which request ids are read and written"""
    out = set()
    for n, a in p.adts.items():
        for v in a["variants"]:
            for f, ty in v["fields"]:
                if f == "id":
                    t = tyname(ty)
                    while t == OPT and tyargs(ty):
                        ty = tyargs(ty)[0]
                        t = tyname(ty)
                    if t in p.adts:
                        out.add(t)
    return out


def C10(ctx, r):
    r.explain = ("Every call in the library crate, from which the server is built, is checked: no conversion between decimals and floating point (directly, through traits, or "
                 "through text), no rounding, truncation, rescaling or normalisation of a decimal whose result is used for more than a comparison, no amount member written or "
                 "read as floating point; the resolved features of the decimal library must make it write all digits.")
    p = ctx.prog
    ids = id_types(p)
    seen = set()
    for b in sorted(p.bodies.values(), key=lambda b: (b["path"], b["kind"])):
        if (b["path"], b["kind"] == "const") in seen and b["kind"] != "promoted":
            continue
        seen.add((b["path"], b["kind"] == "const"))
        r.count("bodies")
        isid = any(i in b["path"] or i in (b.get("impl_self") or "") for i in ids)
        for fn, args, dest, sp in calls(b):
            r.count("calls")
            path, ga = fn["path"], fn["gargs"]
            n = path.split("::")[-1]
            rp = fn.get("rpath") or path
            dec = is_decimal_fn(path) or is_decimal_fn(rp) or any(has_ty(g, ("Decimal",)) for g in ga)
            flt = any(has_ty(g, FLOATS) for g in ga) or any(has_ty(x, FLOATS) for x in re.findall(r"<impl [^>]*>|<[^<>]* as [^<>]*>", rp))
            if dec:
                r.count("decimal calls")
            site = where((b["path"], sp[0], sp[1]) if sp and sp[0] else (b["path"],) + tuple(b["span"][:2]))
            what = None
            if n in ("to_f64", "to_f32", "from_f64", "from_f32", "from_f64_retain", "from_f32_retain") and (dec or "ToPrimitive" in path or "FromPrimitive" in path):
                what = "converts an amount %s floating point (%s)" % ("to" if n.startswith("to") else "from", n)
            elif dec and flt and n in ("try_from", "from", "into", "try_into", "as_"):
                what = "converts between an amount and floating point"
            elif n == "parse" and any(tyname(g) in FLOATS for g in ga):
                what = "parses text as floating point"
            elif n == "from_str" and any(tyname(g) in FLOATS for g in ga + [re.sub(r"^<| as .*", "", rp)]):
                what = "parses text as floating point"
            elif re.search(r"rust_decimal::serde::float(_option)?::", path + " " + rp):
                what = "writes or reads an amount as floating point (%s)" % path
            elif not isid and n in ("serialize_f64", "serialize_f32"):
                what = "writes floating point"
            elif not isid and n in ("next_value", "next_element", "serialize_field", "serialize_entry", "serialize_element", "deserialize", "missing_field") and \
                    any(opt_core(g) in FLOATS for g in ga):
                what = "a member is written or read as floating point"
            elif is_decimal_fn(path) and n in ROUND or is_decimal_fn(path) and n.startswith("round"):
                l = dest[0] if isinstance(dest, list) else None
                if n in ("rescale", "set_scale", "normalize_assign") or l is None or not only_compared(b, l):
                    what = "changes an amount with %s" % n
            elif is_decimal_fn(path) and re.match(r"to_[iu](8|16|32|64|128|size)$", n) or (dec and "ToPrimitive" in path and re.match(r"to_[iu]", n)):
                l = dest[0] if isinstance(dest, list) else None
                if l is None or not only_compared(b, l):
                    what = "turns an amount into an integer (%s)" % n
            elif is_decimal_fn(path) and n in ("mantissa", "unpack"):
                l = dest[0] if isinstance(dest, list) else None
                if l is None or not only_compared(b, l):
                    what = "takes an amount apart (%s)" % n
            if what:
                r.violate("%s:%s" % (short(b["path"]), n), "%s: %s" % (short(b["path"]), what), site)
    for n, a in p.adts.items():
        if n in ids:
            continue
        for v in a["variants"]:
            for f, ty in v["fields"]:
                if n.startswith("api::") or n.split("::")[0] in {b["path"].split("::")[0] for b in p.bodies.values() if not b["path"].startswith("<")}:
                    if opt_core(ty) in FLOATS and (n in ctx.W.serbody or n in ctx.W.debody):
                        r.violate("%s.%s" % (n, f), "%s.%s is written or read as floating point" % (n, f), None)
                    r.count("fields")
    features(ctx, r)
    r.floor("decimal calls", 40, "calls that handle decimals")


def opt_core(ty):
    n = tyname(ty)
    while n == OPT or n.endswith(("::Vec", "::Box")):
        a = tyargs(ty)
        if not a:
            break
        ty = a[0]
        n = tyname(ty)
    return n


def short(p):
    m = re.match(r"^<(.*) as .*>::(\w+)$", p)
    return re.sub(r"'\w+", "", p).replace("<>", "")[:100] if not m else "%s::%s" % (m.group(1)[:80], m.group(2))


def features(ctx, r):
    """what the decimal library writes depends on its resolved features"""
    x = subprocess.run(["cargo", "metadata", "--offline", "--locked", "--format-version", "1"], cwd=os.path.join(facts.REPO, "rust"), capture_output=True, text=True,
                       env=facts._env())
    if x.returncode:
        r.undecide("the features of the decimal library: %s" % x.stderr[-200:])
        return
    m = json.loads(x.stdout)
    for nd in m["resolve"]["nodes"]:
        name = re.search(r"([\w-]+)@[\d.]+$", nd["id"])
        name = name.group(1) if name else ""
        f = set(nd["features"])
        if name == "rust_decimal":
            r.count("features")
            if "serde-float" in f and "serde-arbitrary-precision" not in f:
                r.violate("rust_decimal:features", "the decimal library is built to write amounts as floating point (serde-float without serde-arbitrary-precision)", None)
            elif "serde-float" not in f:
                r.sample("amounts are written as text")
        if name == "serde_json":
            r.count("features")
            if "arbitrary_precision" not in f:
                r.violate("serde_json:features", "numbers in requests are read as floating point (serde_json without arbitrary_precision)", None)
