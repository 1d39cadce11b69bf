"""Names that nobody outside can see do not matter: the types and members that the booking state is made of are recognised by their types, and
given the names that the rules use.  A member is only renamed if exactly one member of its type has the type looked for."""
import json, re

# the members of types that cross the wire, by the names they have there; a single member of a type that goes by another name here is that one
MEMBERS = {
    "json_rpc::BookedDirectives": "directives",
    "json_rpc::ErrorData": "code message data",
    "json_rpc::ErrorResponse": "jsonrpc id error",
    "json_rpc::OptionalParams": "params",
    "json_rpc::Params": "params",
    "json_rpc::RawDirectives": "directives warnings",
    "json_rpc::Request": "jsonrpc id method",
    "json_rpc::ResultResponse": "jsonrpc id result",
    "types::ElementIdx": "directive posting",
    "types::IndexedReport": "reason idx related annotation",
    "types::Plugin": "name config",
    "types::Report": "message reason span contexts related annotation",
    "types::SyntheticSpan": "name content",
    "types::booked::Balance": "raw unused_pad margin",
    "types::booked::Cost": "date per_unit total cur label merge",
    "types::booked::Directive": "idx date tags links metadata variant",
    "types::booked::Posting": "idx flag acc units cur cost price tags links metadata",
    "types::booked::Price": "per_unit total cur",
    "types::booked::Transaction": "flag payee narration postings",
    "types::raw::Balance": "acc units cur tolerance",
    "types::raw::Close": "acc",
    "types::raw::Commodity": "cur",
    "types::raw::CostSpec": "per_unit total cur date label merge",
    "types::raw::Custom": "type_ values",
    "types::raw::Directive": "span date tags links metadata variant",
    "types::raw::Document": "acc path",
    "types::raw::Event": "type_ description",
    "types::raw::Note": "acc comment",
    "types::raw::Open": "acc currencies booking",
    "types::raw::Options": "name_assets name_liabilities name_equity name_income name_expenses title account_previous_balances account_previous_earnings account_previous_conversions account_current_earnings account_current_conversions account_unrealized_gains account_rounding conversion_currency inferred_tolerance_default inferred_tolerance_default_fallback inferred_tolerance_multiplier infer_tolerance_from_cost documents operating_currency render_commas booking_method plugin_processing_mode",
    "types::raw::Pad": "acc source",
    "types::raw::PostingSpec": "span flag acc units cur cost_spec price_spec tags links metadata",
    "types::raw::Price": "per_unit total cur",
    "types::raw::PriceDct": "cur price",
    "types::raw::PriceSpec": "per_unit total cur",
    "types::raw::Query": "name content",
    "types::raw::Span": "source start end",
    "types::raw::SpannedSource": "file_name start_line end_line content",
    "types::raw::Transaction": "flag payee narration postings",
}


DEC = "rust_decimal::Decimal"


def structs(d):
    return [a for a in d["adts"] if a.get("local") and a["kind"] == "struct" and len(a["variants"]) == 1 and "_::<impl" not in a["path"]]


def fields(a):
    return a["variants"][0]["fields"]


def nolt(t):
    return re.sub(r"&'[a-z_]+ ", "&", t)


def one(xs):
    return xs[0] if len(xs) == 1 else None


def canonical(d):
    """facts with the names the rules use"""
    d = types(d)
    names = {a["path"].split("::")[-1]: a["path"] for a in structs(d)}
    eidx = names.get("ElementIdx")
    if eidx is None:
        return d
    d = pads(d, eidx)
    ren = {}
    for a in structs(d):
        fs = fields(a)
        want = None
        last = a["path"].split("::")[-1]
        if any(t.startswith("limabean_booking::Positions<") for _, t in fs) and any(t == eidx for _, t in fs):
            want = {"positions": lambda t: t.startswith("limabean_booking::Positions<"), "opened": lambda t: t == eidx,
                    "allowed_currencies": lambda t: re.search(r"Set<&str>", t), "pad": lambda t: t == "std::option::Option<(usize, %s)>" % eidx,
                    "balance_window": lambda t: t == "std::option::Option<std::ops::Range<usize>>", "booking": lambda t: t == "limabean_booking::Booking"}
        elif a["path"] == eidx:
            want = {"directive": lambda t: t == "usize", "posting": lambda t: t == "std::option::Option<usize>"}
        elif last == "IndexedReport":
            want = {"reason": lambda t: t == "std::string::String" or "Cow<" in t and "Option" not in t, "idx": lambda t: t == eidx,
                    "related": lambda t: t == "std::option::Option<std::vec::Vec<%s>>" % eidx, "annotation": lambda t: t in ("std::option::Option<std::string::String>",)}
        elif last == "Balance" and any(t == "std::option::Option<%s>" % eidx for _, t in fs):
            want = {"raw": lambda t: "Balance<" in t, "unused_pad": lambda t: t == "std::option::Option<%s>" % eidx, "margin": lambda t: t == "std::option::Option<%s>" % DEC}
        elif last == "BookingSuccess":
            want = {"directives": lambda t: "Directive<" in t, "warnings": lambda t: "IndexedReport" in t}
        elif last == "BookingFailure" and len(fs) == 1:
            want = {"errors": lambda t: "IndexedReport" in t}
        if want is None:
            k = MEMBERS.get("::".join(a["path"].split("::")[1:]))
            if k is not None:
                have, k = [n for n, _ in fs], k.split()
                if len(have) == len(k):
                    m = {n: c for n, c in zip(have, k) if n not in k and c not in have}
                    if len(m) == sum(n not in k for n in have):
                        ren[a["path"]] = m
            continue
        have = {n for n, _ in fs}
        m = {}
        for canon, ok in want.items():
            n = one([n for n, t in fs if ok(nolt(t))])
            if n is not None and n != canon and canon not in have:
                m[n] = canon
        if m:
            ren[a["path"]] = m
    return members(d, ren) if ren else d


def types(d):
    """the types of places and of reports, by what they are made of"""
    for name, shape in (("ElementIdx", lambda fs: sorted(fs) == ["std::option::Option<usize>", "usize"]),
                        ("IndexedReport", lambda fs: len(fs) == 4 and "api::types::ElementIdx" in fs and "std::option::Option<std::vec::Vec<api::types::ElementIdx>>" in fs),
                        ("BookingFailure", lambda fs: fs == ["std::vec::Vec<api::types::IndexedReport>"]),
                        ("BookingSuccess", lambda fs: len(fs) == 2 and "std::vec::Vec<api::types::IndexedReport>" in fs and any(re.match(r"std::vec::Vec<[\w:]*booked::Directive<", f) for f in fs))):
        ss = structs(d)
        if any(a["path"].split("::")[-1] == name for a in ss):
            continue
        a = one([a for a in ss if shape([t for _, t in fields(a)])])
        if a is None:
            continue
        old = a["path"]
        new = old[:len(old) - len(old.split("::")[-1])] + name
        d = retext(d, old, new)
    return d


def retext(d, old, new):
    return json.loads(re.sub(re.escape(old) + r"(?!\w)", lambda m: new, json.dumps(d)))


def pads(d, eidx):
    """the position and the place of a pending pad, where they are the members of a type of their own"""
    for a in structs(d):
        if not any(t.startswith("limabean_booking::Positions<") for _, t in fields(a)):
            continue
        for _, t in fields(a):
            m = re.match(r"std::option::Option<([\w:]+)(<'[a-z]+>)?>$", t)
            p = m and one([b for b in structs(d) if b["path"] == m.group(1)])
            if not p or p["path"] == eidx or sorted(t for _, t in fields(p)) != sorted(["usize", eidx]):
                continue
            order = [n for n, _ in sorted(fields(p), key=lambda f: f[1] != "usize")]
            at = {n: i for i, n in enumerate(order)}
            decl = [n for n, _ in fields(p)]

            def go(x):
                if isinstance(x, dict):
                    return {k: go(v) for k, v in x.items()}
                if not isinstance(x, list):
                    return x
                if len(x) == 5 and x[0] == "f" and x[3] == p["path"]:
                    i = at[x[2]]
                    return ["f", i, str(i), "", ""]
                if len(x) == 3 and x[0] == "agg" and isinstance(x[1], list) and len(x[1]) > 1 and x[1][0] == "adt" and x[1][1] == p["path"] and len(x[2]) == 2:
                    ns = x[1][4] if len(x[1]) > 4 and len(x[1][4]) == 2 else decl
                    ops = dict(zip(ns, x[2]))
                    return ["agg", ["tuple"], [go(ops[n]) for n in order]]
                return [go(y) for y in x]
            path = p["path"]
            d = go(d)
            d["adts"] = [b for b in d["adts"] if b["path"] != path]
            return json.loads(re.sub(re.escape(path) + r"(<'[a-z_]+>)?(?![\w:])", lambda m: "(usize, %s)" % eidx, json.dumps(d)))
    return d


def members(d, ren):
    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        if not isinstance(x, list):
            return x
        if len(x) == 5 and x[0] == "f" and x[3] in ren:
            return ["f", x[1], ren[x[3]].get(x[2], x[2]), x[3], x[4]]
        if len(x) == 5 and x[0] == "adt" and x[1] in ren and isinstance(x[4], list):
            return x[:4] + [[ren[x[1]].get(n, n) for n in x[4]]]
        return [go(y) for y in x]
    d = go(d)
    for a in d["adts"]:
        if a["path"] in ren:
            for v in a["variants"]:
                v["fields"] = [[ren[a["path"]].get(f[0], f[0])] + list(f[1:]) for f in v["fields"]]
    return d
