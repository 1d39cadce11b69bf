"""What the parser's values look like on the wire: the reference for C06, C07, C08, C22 and C30."""
from engine.terms import *
from lb.spec import *
from lb.judge import ABSENT, NULL

P = "beancount_parser_lima::"
FLAGS = {"Ampersand": S("&"), "Asterisk": S("*"), "Exclamation": S("!"), "Hash": S("#"), "Percent": S("%"), "Question": S("?")}
METHODS = {"Strict": "strict", "StrictWithSize": "strict-with-size", "None": "none", "Average": "average", "Fifo": "fifo", "Lifo": "lifo", "Hifo": "hifo"}
MODES = {"Default": "default", "Raw": "raw"}


def span_of(x):
    s = c("Spanned::span", x)
    return span(s)


def span(s):
    return mk("arr", fld("", "source", s), fld("", "start", s), fld("", "end", s))


def value(x):
    return c("ExprValue::value", x)


def flag(x):
    d = dict(FLAGS)
    d["Letter"] = mk("fmt", mk("disp", x))
    return on(P + "Flag", x, d)


def booking(x):
    return on(P + "Booking", x, {k: S(v) for k, v in METHODS.items()})


def metavalue(x):
    def amount(a):
        return O(cur=c("Amount::currency", a), units=value(c("Amount::number", a)))

    def simple(s):
        return on(P + "SimpleValue", s, {
            "Account": lambda a: O(acc=a), "Bool": lambda a: O(bool=a), "Currency": lambda a: O(cur=a), "Date": lambda a: O(date=isodate(a)),
            "Expr": lambda a: O(number=value(a)), "Link": lambda a: O(link=a), "Null": NULL, "String": lambda a: O(string=a), "Tag": lambda a: O(tag=a)})
    return on(P + "MetaValue", x, {"Amount": amount, "Simple": simple})


def isodate(x):
    return call("isodate", x)


def annotations(md):
    return {
        "tags": nonempty(c("Metadata::tags", md), toset),
        "links": nonempty(c("Metadata::links", md), toset),
        "metadata": nonempty(c("Metadata::key_values", md), lambda s: mk("tomap", each(s, lambda e: tup(fld("", "0", e), metavalue(fld("", "1", e))))))}


def cost_spec(x):
    return O(cur=opt(c("CostSpec::currency", x)), date=opt(c("CostSpec::date", x), isodate), label=opt(c("CostSpec::label", x)),
             merge=flag_if(c("CostSpec::merge", x)), per_unit=opt(c("CostSpec::per_unit", x), value), total=opt(c("CostSpec::total", x), value))


def price_spec(x):
    def amt(which):
        def f(a):
            return on(P + "ScopedExprValue", a, {"PerUnit": (lambda v: value(v)) if which == "per" else ABSENT,
                                                 "Total": (lambda v: value(v)) if which == "total" else ABSENT})
        return on(P + "PriceSpec", x, {"BareAmount": f, "BareCurrency": ABSENT, "Unspecified": ABSENT,
                                       "CurrencyAmount": lambda a, cur: f(a)})
    return O(cur=on(P + "PriceSpec", x, {"BareAmount": ABSENT, "Unspecified": ABSENT, "BareCurrency": lambda cur: cur, "CurrencyAmount": lambda a, cur: cur}),
             per_unit=amt("per"), total=amt("total"))


def posting(x):
    d = annotations(c("Posting::metadata", x))
    d.update({"acc": c("Posting::account", x), "span": span_of(x), "flag": opt(c("Posting::flag", x), flag),
              "units": opt(c("Posting::amount", x), value), "cur": opt(c("Posting::currency", x)),
              "cost-spec": opt(c("Posting::cost_spec", x), cost_spec), "price-spec": opt(c("Posting::price_annotation", x), price_spec)})
    return obj(d)


def variant(v):
    def tagged(name, f):
        return lambda x: f_(name, f(x))

    def f_(name, o):
        d = dict(o)
        d["dct"] = S(name)
        return obj(d)

    def balance(x):
        a = c("Balance::atol", x)
        m = c("AmountWithTolerance::amount", a)
        return {"acc": c("Balance::account", x), "cur": c("Amount::currency", m), "units": value(c("Amount::number", m)),
                "tolerance": opt(c("AmountWithTolerance::tolerance", a))}

    def price(x):
        m = c("Price::amount", x)
        return {"cur": c("Price::currency", x), "price": O(per_unit=value(c("Amount::number", m)), cur=c("Amount::currency", m))}

    def open_(x):
        return {"acc": c("Open::account", x), "currencies": nonempty(c("Open::currencies", x), toset), "booking": opt(c("Open::booking", x), booking)}

    def txn(x):
        return {"flag": flag(c("Transaction::flag", x)), "payee": opt(c("Transaction::payee", x)), "narration": opt(c("Transaction::narration", x)),
                "postings": each(c("Transaction::postings", x), posting)}
    return on(P + "DirectiveVariant", v, {
        "Balance": tagged("balance", balance), "Price": tagged("price", price), "Open": tagged("open", open_), "Transaction": tagged("txn", txn),
        "Close": tagged("close", lambda x: {"acc": c("Close::account", x)}),
        "Commodity": tagged("commodity", lambda x: {"cur": c("Commodity::currency", x)}),
        "Custom": tagged("custom", lambda x: {"type": c("Custom::type_", x), "values": each(c("Custom::values", x), metavalue)}),
        "Document": tagged("document", lambda x: {"acc": c("Document::account", x), "path": c("Document::path", x)}),
        "Event": tagged("event", lambda x: {"type": c("Event::event_type", x), "description": c("Event::description", x)}),
        "Note": tagged("note", lambda x: {"acc": c("Note::account", x), "comment": c("Note::comment", x)}),
        "Pad": tagged("pad", lambda x: {"acc": c("Pad::account", x), "source": c("Pad::source", x)}),
        "Query": tagged("query", lambda x: {"name": c("Query::name", x), "content": c("Query::content", x)})})


def directive(e):
    d = annotations(c("Directive::metadata", e))
    d.update({"date": isodate(c("Directive::date", e)), "span": span_of(e), "+": variant(c("Directive::variant", e))})
    return obj(d)


OPTION_TEXT = ["account-previous-balances", "account-previous-earnings", "account-previous-conversions", "account-current-earnings",
               "account-current-conversions", "account-unrealized-gains", "account-rounding", "conversion-currency", "title",
               "inferred-tolerance-multiplier", "infer-tolerance-from-cost", "render-commas"]


def options(o):
    d = {}
    for n in OPTION_TEXT:
        d[n] = opt(c("Options::" + n.replace("-", "_"), o))
    for n in ("Assets", "Liabilities", "Equity", "Income", "Expenses"):
        d["name-" + n.lower()] = c("Options::account_type_name", o, adt(P + "AccountType", n, (), ()))
    d["booking-method"] = opt(c("Options::booking_method", o), booking)
    d["plugin-processing-mode"] = opt(c("Options::plugin_processing_mode", o), lambda x: on(P + "PluginProcessingMode", x, {k: S(v) for k, v in MODES.items()}))
    d["documents"] = nonempty(c("Options::documents", o), lambda s: toset(each(s, lambda e: c("Path::to_string_lossy", e))))
    d["operating-currency"] = nonempty(c("Options::operating_currency", o), toset)
    t = c("Options::inferred_tolerance_defaults", o)
    L = 210001
    e = mk("elem", L, t)
    cur = fld("", "0", e)
    named = case(mk("discr", OPT, cur), {"None": EMPTYSEQ, "Some": seq(tup(fld("Some", "0", cur), fld("", "1", e)))})
    d["inferred-tolerance-default"] = ITE(any_(L, t, eqlabel(mk("discr", OPT, cur), "Some")), mk("tomap", comp(L, t, named)), ABSENT)
    other = case(mk("discr", OPT, cur), {"None": seq(some(fld("", "1", e))), "Some": EMPTYSEQ})
    last = mk("last", NONE, comp(L, t, other))
    d["inferred-tolerance-default-fallback"] = opt(last)
    return obj(d)


def plugin(e):
    return O(name=c("Plugin::module_name", e), config=opt(c("Plugin::config", e), none=NULL))


def report(e):
    def labelled(s):
        return nonempty(s, lambda l: each(l, lambda x: mk("arr", fld("", "0", x), span(fld("", "1", x)))))
    return O(message=c("Report::message", e), reason=c("Report::reason", e), span=span(c("Report::span", e)),
             contexts=labelled(c("Report::contexts", e)), related=labelled(c("Report::related", e)))
