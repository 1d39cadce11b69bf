"""Wire names: what the Serialize and Deserialize implementations write and read, from their MIR.

Serialize bodies are evaluated on a symbolic value with the serializer's operations recorded; the
condition of a recorded operation is the condition under which the member is written."""
import re
from engine.terms import *
from engine.interp import Interp

SERH = mk("param", "ser")


def tyname(s):
    """type path without lifetimes and generic arguments"""
    s = s.strip()
    while s.startswith("&"):
        s = re.sub(r"^&('\w+ )?(mut )?", "", s)
    d = 0
    for i, c in enumerate(s):
        if c == "<" and i > 0:
            return s[:i]
    return s


def tyargs(s):
    """generic type arguments (no lifetimes) of a type"""
    s = s.strip()
    while s.startswith("&"):
        s = re.sub(r"^&('\w+ )?(mut )?", "", s)
    i = s.find("<")
    if i <= 0:
        return []
    out, d, cur = [], 0, ""
    for c in s[i + 1:s.rindex(">")]:
        if c in "<([":
            d += 1
        if c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]


def _ret(v):
    def f(I, st, a, fn, site):
        vals = []
        for x in a:
            vals.append(I.freeze(st, I.models.D(I, st, x), site))
        I.calls.append({"name": I.short(fn["path"]), "path": fn["path"], "args": tuple(simp(x, st.pc) for x in vals), "site": site,
                        "pc": st.pc, "res": None, "fn": fn, "stack": tuple(I.stack)})
        return ok(v)
    return f


class Hooks(dict):
    def get(self, name, d=None):
        if name.startswith(("Serializer::", "SerializeStruct::", "SerializeMap::", "SerializeSeq::", "SerializeTuple::",
                            "SerializeStructVariant::", "SerializeTupleStruct::", "SerializeTupleVariant::")) or name in (
                "ser::serialize_tagged_newtype", "Serialize::serialize"):
            begin = name.split("::")[1] in ("serialize_struct", "serialize_map", "serialize_seq", "serialize_tuple", "serialize_struct_variant",
                                            "serialize_tuple_struct", "serialize_tuple_variant")
            return _ret(SERH if begin else UNIT)
        return d


class Ser:
    """what serialising a value of this type does: list of operations with their conditions"""

    def __init__(self, path, ops, undecided):
        self.path, self.ops, self.undecided = path, ops, undecided


class Wire:
    def __init__(self, prog):
        self.p = prog
        self.ser, self.de = {}, {}
        self.serbody = {}
        self.v = mk("param", "v")
        for b in prog.bodies.values():
            if b["kind"] == "poly" and b.get("impl_trait") in ("serde::Serialize", "serde::ser::Serialize") and b["path"].endswith("::serialize"):
                self.serbody[tyname(b["impl_self"])] = b
        self.debody = {}
        for b in prog.bodies.values():
            if b["kind"] == "poly" and b.get("impl_trait") in ("serde::Deserialize", "serde::de::Deserialize") and b["path"].endswith("::deserialize"):
                n = tyname(b["impl_self"])
                if n.startswith("<") or "deserialize::__" in b["impl_self"] or "__DeserializeWith" in b["impl_self"]:
                    continue
                self.debody[n] = b

    # ---- writing --------------------------------------------------------------------------------
    def writes(self, path):
        """operations performed when a value of type path is written"""
        if path in self.ser:
            return self.ser[path]
        b = self.serbody.get(path)
        if b is None:
            return None
        I = Interp(self.p)
        I.hooks = Hooks()
        try:
            outs = I.entry(b, [self.v, SERH])
            r = Ser(path, list(I.calls), [n for n in I.notes])
        except Exception as e:      # no answer for this type
            r = Ser(path, [], [("error", repr(e))])
        self.ser[path] = r
        return r

    def members(self, path, variant=None):
        """wire members written for a struct: [(wire name | None for flattened, value term, condition, site)]"""
        s = self.writes(path)
        if s is None or s.undecided:
            return None
        out = []
        for c in s.ops:
            n = c["name"].split("::")[-1]
            if n in ("serialize_field", "serialize_entry"):
                k = c["args"][1]
                out.append((k, c["args"][2], c["pc"], c["site"]))
            elif c["name"] == "Serialize::serialize" and is_adt(c["args"][1]) and c["args"][1].a[0].endswith("FlatMapSerializer"):
                out.append((None, c["args"][0], c["pc"], c["site"]))
        return out

    def tags(self, path):
        """variant -> (form, tag member, wire name, payload term)"""
        s = self.writes(path)
        if s is None or s.undecided:
            return None
        d = mk("discr", path, self.v)
        out = {}
        for c in s.ops:
            f = forced(c["pc"]) if c["pc"] is not TRUE else {}
            vs = [f.get(d)] if d in f else [l for l in UNIV.get(path, []) if restrict(c["pc"], d, l) is not FALSE]
            n = c["name"].split("::")[-1]
            for v in vs:
                g = lambda t: restrict(t, d, v)
                if n == "serialize_tagged_newtype":
                    out[v] = ("tagged", g(c["args"][3]), g(c["args"][4]), g(c["args"][5]), c["site"])
                elif n == "serialize_unit_variant":
                    out[v] = ("unit", None, g(c["args"][3]), None, c["site"])
                elif n == "serialize_newtype_variant":
                    out[v] = ("newtype", None, g(c["args"][3]), g(c["args"][4]), c["site"])
                elif n == "serialize_field" and v not in out:
                    out[v] = ("unit-tagged", g(c["args"][1]), g(c["args"][2]), None, c["site"])
                elif c["name"] == "Serialize::serialize":
                    out[v] = ("untagged", None, None, g(c["args"][0]), c["site"])
                elif n == "serialize_none" or n == "serialize_unit":
                    out[v] = ("null", None, None, None, c["site"])
        return out

    def unwrap_with(self, t):
        """value inside a serialize_with wrapper"""
        if is_adt(t) and t.a[0].endswith("__SerializeWith"):
            v = adt_field(t, "values")
            return v.a[0] if v.op == "tup" else v
        return t

    def iso(self):
        """the format description [year]-[month]-[day], as terms of the constants of the crate that have that value"""
        if not hasattr(self, "_iso"):
            self._iso, self._descs = set(), {}
        return self._iso

    def is_iso(self, desc):
        """does a format description mean [year]-[month]-[day] with all defaults"""
        key = desc
        self.iso()
        if key in self._descs:
            return self._descs[key]
        t = desc
        for _ in range(4):
            if t.op == "named":
                for b in self.p.bodies.values():
                    if b["path"] == t.a[0] and b["kind"] == "const":
                        try:
                            outs = Interp(self.p).entry(b, [])
                        except Exception:
                            outs = []
                        if len(outs) == 1:
                            t = outs[0][1]
                        break
                else:
                    break
        r = None
        if t.op == "seq":
            r = [self.desc_item(x) for x in t.a] == ["Year", "-", "Month", "-", "Day"] if all(self.desc_item(x) is not None for x in t.a) else None
        self._descs[key] = r
        return r

    @staticmethod
    def desc_item(x):
        """Year, Month, ... for a component with default modifiers, text for a literal"""
        if not is_adt(x) or len(x.a) < 4:
            return None
        y = x.a[3]
        if x.a[1] == "Literal":
            if y.op == "bytes":
                return str(y.a[0])[2:-1] if str(y.a[0]).startswith("b'") else str(y.a[0])
            if y.op == "str":
                return y.a[0]
            return None
        if x.a[1] == "Component" and is_adt(y):
            m = y.a[3] if len(y.a) > 3 else None
            if m is not None and m.op == "call" and m.a[0].split("::")[-1] == "default" and len(m.a) == 1:
                return y.a[1]
            return "%s(modified)" % y.a[1]
        return None

    def withs(self, path):
        """the __SerializeWith bodies of a type, in the order of its members"""
        if not hasattr(self, "_withs"):
            self._withs = {}
            for i, b in sorted(self.p.bodies.items()):
                m = re.search(r"<impl serde::Serialize for (.*)>::serialize::__SerializeWith", b["path"])
                if b["kind"] == "poly" and m and b["path"].endswith(" as serde::Serialize>::serialize"):
                    self._withs.setdefault(tyname(m.group(1)), []).append((i, b))
        return self._withs.get(path, [])

    def with_key(self, path, t):
        """pseudo type under which the operations of a serialize_with wrapper are recorded, or None"""
        if not (is_adt(t) and t.a[0].endswith("__SerializeWith")):
            return None
        s = self.writes(path)
        order = []
        for c in s.ops:
            if c["name"].split("::")[-1] in ("serialize_field", "serialize_entry"):
                v = c["args"][2]
                if is_adt(v) and v.a[0].endswith("__SerializeWith") and v not in order:
                    order.append(v)
        ws = self.withs(path)
        if t not in order or len(order) != len(ws):
            return None
        i, b = ws[order.index(t)]
        key = "with:%d" % i
        if key not in self.ser:
            I = Interp(self.p)
            I.hooks = Hooks()
            w = adt(t.a[0], t.a[1], t.a[2], [tup(self.v) if n == "values" else x for n, x in zip(t.a[2], t.a[3:])])
            try:
                outs = I.entry(b, [w, SERH])
                self.ser[key] = Ser(key, list(I.calls), list(I.notes))
                self.ser[key].ext = [x for _, o in outs for x in subterms(o) if x.op == "call" and SERH in x.a]
            except Exception as e:
                self.ser[key] = Ser(key, [], [("error", repr(e))])
                self.ser[key].ext = []
        return key

    # ---- reading --------------------------------------------------------------------------------
    def reads(self, path):
        """{"kind", "names": {wire: index}, "fields": {wire: {field, ty, required, with}}} for derived reading"""
        if path in self.de:
            return self.de[path]
        self.de[path] = None
        if path not in self.debody:
            return None
        base = self.debody[path]
        pre = base["path"]
        def sub(suffix):
            for b in self.p.bodies.values():
                if b["kind"] == "poly" and b["path"].endswith(suffix) and (pre + "::__" in b["path"]):
                    yield b
        vs = [b for b in sub("::visit_str") if "__FieldVisitor" in b["path"]]
        if not vs:
            return None
        I = Interp(self.p)
        outs = I.entry(vs[0], [UNIT, mk("param", "name")])
        names = {}
        other = None
        for st, v in outs:
            def go(t):
                nonlocal other
                if t.op == "case" and t.a[0] is mk("param", "name"):
                    _, it, d = case_items(t)
                    for l, x in it.items():
                        names[l] = x
                    other = d
                elif is_adt(t):
                    other = t
            if is_adt(v, RES, "Ok"):
                go(adt_field(v, "0"))
            else:
                p = cof(v, mk("param", "name"), None)
                if v.op == "case" and v.a[0] is mk("param", "name"):
                    _, it, d = case_items(v)
                    for l, x in it.items():
                        if is_adt(x, RES, "Ok"):
                            names[l] = adt_field(x, "0")
                    other = d
        idx = {}
        for l, x in names.items():
            m = re.match(r"__field(\d+)$", x.a[1]) if is_adt(x) else None
            if m:
                idx[l] = int(m.group(1))
        adt_ = self.p.adts.get(path)
        r = {"names": idx, "variants": None, "fields": None, "unknown": other, "site": (vs[0]["path"],) + tuple(vs[0]["span"][:2])}
        if adt_ is None:
            return None
        if adt_["kind"] == "enum":
            r["variants"] = {l: adt_["variants"][i]["name"] for l, i in idx.items() if i < len(adt_["variants"])}
        else:
            fs = adt_["variants"][0]["fields"]
            r["fields"] = {l: {"field": fs[i][0], "ty": fs[i][1]} for l, i in idx.items() if i < len(fs)}
            # members that may be left out
            req = set()
            for b in sub("::visit_map"):
                for blk in b["blocks"]:
                    t = blk["t"]
                    if t and t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                        fn = t[1][1]["fn"]
                        nm = fn["path"].split("::")[-1]
                        if nm == "missing_field":
                            a = t[2][0]
                            name = a[1].get("str") if a[0] == "k" else None
                            private = "__private" in fn["path"]
                            opt = private and fn["gargs"] and fn["gargs"][0].startswith("std::option::Option")
                            if name is None or not opt:
                                req.add((name, private, tuple(fn["gargs"])))
            r["required_raw"] = req
        self.de[path] = r
        return r

    # ---- reading, by evaluating the generated visitors ---------------------------------------------
    def record(self, path):
        """how an object is read as a struct: {field: {"names", "ty", "fn", "absent", "site"}} and
        the members taken from the rest of the object: {field: (function, type)}; None when unknown"""
        if not hasattr(self, "_rec"):
            self._rec = {}
        if path not in self._rec:
            try:
                self._rec[path] = self._record(path)
            except Exception as e:
                self._rec[path] = None
                self.why = repr(e)
        return self._rec[path]

    def _record(self, path):
        base = self.debody.get(path)
        rd = self.reads(path)
        if base is None or rd is None or self.p.adts[path]["kind"] == "enum":
            return None
        vm = [b for b in self.p.bodies.values() if b["kind"] == "poly" and b["path"].endswith("::visit_map") and base["path"] + "::__Visitor" in b["path"]]
        if len(vm) != 1:
            return None
        I = Interp(self.p)
        I.hooks = ReadHooks()
        outs = I.entry(vm[0], [UNIT, mk("param", "map")])
        if len(I.loops) != 1:
            return None
        t = sel([(st.pc, x) for st, x in outs])
        lp = I.loops[0]
        slots = {k: (lv, nx) for k, (lv, init, nx) in lp.W.items() if is_adt(init, OPT, "None")}
        keys = [c for c in I.calls if c["name"] == "MapAccess::next_key"]
        if len(keys) != 1:
            return None
        kd = None
        for x in subterms(lp.W[next(iter(slots))][2]) if slots else ():
            if x.op == "case" and x.a[0].op == "discr" and "__Field" in x.a[0].a[0]:
                kd = x.a[0]
        labels = list(UNIV.get(kd.a[0], [])) if kd is not None else []
        values = [c for c in I.calls if c["name"] == "MapAccess::next_value"]
        byslot, ty = {}, {}
        for l in labels:
            m = re.match(r"__field(\d+)$", l)
            if not m:
                continue
            for k, (lv, nx) in slots.items():
                y = restrict(nx, kd, l)
                for lv2, _ in slots.values():
                    y = restrict(y, discr(OPT, lv2), "None")
                if y is not lv and not is_adt(y, OPT, "None"):
                    byslot[k] = (int(m.group(1)), y)
            ts = []
            for c in values:
                f = forced(c["pc"])
                if f.get(kd) == l or (kd not in f and restrict(c["pc"], kd, l) is not FALSE and not any(z is kd for z in subterms(c["pc"]))):
                    ts.append(c)
            if len(ts) == 1:
                ty[int(m.group(1))] = ts[0]["fn"]["gargs"][1]
        full = t
        for lv, _ in slots.values():
            full = restrict(full, discr(OPT, lv), "Some")
        nk = [x for x in subterms(full) if x.op == "discr" and x.a[1].op == "call" and x.a[1].a[0] == "next_key"]
        for x in nk:
            full = restrict(full, x, "None")
        good = None
        for x in subterms(full):
            if is_adt(x, RES, "Ok") and is_adt(x.a[3]) and x.a[3].a[0] == path:
                good = x.a[3]
        if good is None:
            return None
        out = {"fields": {}, "rest": {}, "names": rd["names"], "unknown": rd["unknown"], "site": (vm[0]["path"],) + tuple(vm[0]["span"][:2])}
        for fname, ftype in self.p.adts[path]["variants"][0]["fields"]:
            v = adt_field(good, fname)
            s = None
            for k, (lv, nx) in slots.items():
                if v is fld("Some", "0", lv):
                    s = k
            if s is None:
                fns = [x for x in subterms(v) if x.op == "adt" and x.a[0].endswith("FlatMapDeserializer")]
                out["rest"][fname] = (bool(fns), ftype, v)
                continue
            n, put = byslot.get(s, (None, None))
            a = t
            for k, (lv, nx) in slots.items():
                a = restrict(a, discr(OPT, lv), "None" if k == s else "Some")
            for x in nk:
                a = restrict(a, x, "None")
            absent = "error"
            for x in subterms(a):
                if is_adt(x, RES, "Ok") and is_adt(x.a[3]) and x.a[3].a[0] == path:
                    absent = adt_field(x.a[3], fname)
            out["fields"][fname] = {"names": [l for l, i in rd["names"].items() if i == n], "ty": ty.get(n), "put": put, "absent": absent, "type": ftype}
        return out

    def variant_reads(self, path):
        """(tag member, {wire name: variant}) for an enum read by derived code"""
        rd = self.reads(path)
        if rd is None or not rd.get("variants"):
            return None
        tag = None
        base = self.debody[path]
        for b in self.p.bodies.values():
            if b["kind"] == "poly" and b["path"] == base["path"]:
                for blk in b["blocks"]:
                    t = blk["t"]
                    if t and t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1] and t[1][1]["fn"]["path"].endswith("TaggedContentVisitor::<T>::new"):
                        a = t[2][0]
                        tag = a[1].get("str") if a[0] == "k" else None
        return tag, rd["variants"]


class ReadHooks(dict):
    def get(self, name, d=None):
        if name in ("MapAccess::next_key", "MapAccess::next_value", "SeqAccess::next_element", "MapAccess::next_value_seed"):
            def f(I, st, a, fn, site):
                old = I.read_ref(st, a[0])
                r = call(name.split("::")[1], old)
                I.calls.append({"name": name, "path": fn["path"], "args": (old,), "site": site, "pc": st.pc, "res": r, "fn": fn, "stack": ()})
                I.write_ref(st, a[0], mk("after", name, 1, old))
                return ok(r)
            return f
        if name in ("de::missing_field", "Error::missing_field"):
            def g(I, st, a, fn, site):
                n = I.freeze(st, I.models.D(I, st, a[0]), site)
                if name == "de::missing_field":
                    if fn["gargs"] and fn["gargs"][0].startswith("std::option::Option"):
                        return ok(adt(OPT, "None", (), ()))
                    return err(call("missing", n))
                return call("missing", n)
            return g
        if name == "Error::duplicate_field":
            return lambda I, st, a, fn, site: []
        return d
