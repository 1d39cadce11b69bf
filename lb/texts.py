"""values of terms over texts, numbers and lists when the texts and numbers are given"""
from engine.terms import *
from lb.booking import last


class Unknown(Exception):
    pass


def pat(x):
    """a pattern that is searched for: a text or one character"""
    return chr(x) if isinstance(x, int) else x


def bounds(n, d):
    lo, hi = d.get("start", 0), d.get("end", n)
    if not (0 <= lo <= hi <= n):
        raise Unknown
    return lo, hi


def str_call(n, xs):
    """the value of a standard function on texts, lists, numbers and options (None or ("Some", x))"""
    x = xs[0]
    y = pat(xs[1]) if len(xs) > 1 else None
    if isinstance(x, str):
        if n in ("chars", "bytes", "as_bytes_list"):
            return [ord(c) for c in x]
        if n in ("as_bytes", "as_str", "as_ref", "borrow", "to_string", "to_owned", "into", "from", "clone", "deref", "into_string", "into_owned"):
            return x
        if n in ("trim", "trim_end", "trim_start"):
            return {"trim": x.strip, "trim_end": x.rstrip, "trim_start": x.lstrip}[n]()
        if n == "char_indices":
            return [(i, ord(c)) for i, c in enumerate(x)]
        if n in ("split", "split_terminator") and isinstance(y, str) and y:
            return x.split(y)
        if n == "rsplit" and isinstance(y, str) and y:
            return x.split(y)[::-1]
        if n in ("splitn", "rsplitn") and len(xs) == 3 and isinstance(xs[1], int) and xs[1] > 0:
            return x.split(pat(xs[2]), xs[1] - 1) if n == "splitn" else x.rsplit(pat(xs[2]), xs[1] - 1)[::-1]
        if n in ("split_once", "rsplit_once"):
            p = x.split(y, 1) if n == "split_once" else x.rsplit(y, 1)
            return ("Some", tuple(p)) if len(p) == 2 else None
        if n in ("find", "rfind") and isinstance(y, str):
            i = x.find(y) if n == "find" else x.rfind(y)
            return ("Some", i) if i >= 0 else None
        if n == "match_indices" and isinstance(y, str) and y:
            out, i = [], x.find(y)
            while i >= 0:
                out.append((i, y))
                i = x.find(y, i + len(y))
            return out
        if n in ("strip_prefix", "strip_suffix"):
            if n == "strip_prefix":
                return ("Some", x[len(y):]) if x.startswith(y) else None
            return ("Some", x[:len(x) - len(y)]) if x.endswith(y) else None
        if n in ("starts_with", "ends_with", "contains"):
            return int({"starts_with": x.startswith, "ends_with": x.endswith, "contains": x.__contains__}[n](y))
        if n in ("trim_start_matches", "trim_end_matches") and isinstance(y, str) and y:
            while (x.startswith(y) if n == "trim_start_matches" else x.endswith(y)):
                x = x[len(y):] if n == "trim_start_matches" else x[:-len(y)]
            return x
        if n == "split_at" and isinstance(xs[1], int):
            if xs[1] > len(x):
                raise Unknown
            return (x[:xs[1]], x[xs[1]:])
        if n in ("str_is_empty",):
            return int(x == "")
        if n == "eq_ignore_ascii_case":
            return int(x.lower() == y.lower())
    if isinstance(x, (str, list)):
        if n in ("len", "count"):
            return len(x)
        if n == "is_empty":
            return int(not x)
        if n in ("slice", "get") and isinstance(xs[1], dict):
            n_, d = len(x), xs[1]
            lo, hi = d.get("start", 0), d.get("end", n_)
            fine = 0 <= lo <= hi <= n_
            if n == "get":
                return ("Some", x[lo:hi]) if fine else None
            if not fine:
                raise Unknown
            return x[lo:hi]
        if n == "get" and isinstance(xs[1], int):
            return ("Some", item(x, xs[1])) if xs[1] < len(x) else None
        if n in ("first", "last"):
            return ("Some", item(x, 0 if n == "first" else len(x) - 1)) if x else None
        if n in ("iter", "collect", "into_iter"):
            return [ord(c) for c in x] if isinstance(x, str) else x
    if isinstance(x, list) and all(isinstance(z, str) for z in x):
        if n == "concat":
            return "".join(x)
        if n == "join":
            return y.join(x)
    if isinstance(x, list):
        if n == "rev":
            return x[::-1]
        if n == "skip" and isinstance(xs[1], int):
            return x[xs[1]:]
        if n == "take" and isinstance(xs[1], int):
            return x[:xs[1]]
    raise Unknown


def item(x, i):
    return ord(x[i]) if isinstance(x, str) else x[i]


def whole(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise Unknown
    return x


def tval(t, env):
    """the value of a term under a valuation of its texts"""
    if t in env:
        return env[t]
    op = t.op
    V = lambda i: tval(t.a[i], env)
    if op == "str":
        return t.a[0]
    if op == "k":
        return t.a[0]
    if op in ("disp", "text", "tostr"):
        x = V(0)
        return pat(x)
    if op == "fmt":
        return "".join(pat(tval(x, env)) for x in t.a)
    if op == "strip_prefix":
        x, y = V(0), pat(V(1))
        if not x.startswith(y):
            raise Unknown
        return x[len(y):]
    if op == "call":
        n = last(t.a[0])
        xs = [tval(x, env) for x in t.a[1:]]
        if n == "strip_prefix":                 # what is left, where the prefix is there
            if not xs[0].startswith(pat(xs[1])):
                raise Unknown
            return xs[0][len(pat(xs[1])):]
        return str_call(n, xs)
    if op in ("slice", "skip", "take", "rev", "len"):
        return str_call(op, [tval(x, env) for x in t.a])
    if op == "pred":
        if t.a[0] == "range_within":
            x, d = tval(t.a[1], env), tval(t.a[2], env)
            return int(0 <= d.get("start", 0) <= d.get("end", len(x)) <= len(x))
        return str_call(t.a[0], [tval(x, env) for x in t.a[1:]])
    if op == "isempty":
        x = V(0)
        if not isinstance(x, (str, list)):
            raise Unknown
        return int(not x)
    if op == "eq":
        x, y = V(0), V(1)
        for p, q in ((x, y), (y, x)):
            if isinstance(p, list) and isinstance(q, str):      # the bytes of a text
                return int(p == [ord(c) for c in q])
        if type(x) is not type(y) and None not in (x, y):
            raise Unknown
        return int(x == y)
    if op == "lt":
        return int(whole(V(0)) < whole(V(1)))
    if op == "add":
        return sum(whole(tval(x, env)) for x in t.a)
    if op == "sub":
        return whole(V(0)) - whole(V(1))
    if op == "index":
        x, i = V(0), whole(V(1))
        if not isinstance(x, (str, list)) or i >= len(x):
            raise Unknown
        return item(x, i)
    if op in ("seq", "tup"):
        xs = [tval(x, env) for x in t.a]
        return xs if op == "seq" else tuple(xs)
    if op == "cat":
        out = []
        for x in t.a:
            v = tval(x, env)
            if not isinstance(v, list):
                raise Unknown
            out += v
        return out
    if op == "range":
        return {"start": whole(V(0)), "end": whole(V(1))}
    if op == "adt":
        names = t.a[2]
        xs = [tval(x, env) for x in t.a[3:]]
        if t.a[0] == OPT:
            return ("Some", xs[0]) if xs else None
        if "Range" in t.a[0] and set(names) <= {"start", "end"}:
            if t.a[0].endswith("Inclusive") and "end" in names:
                xs[names.index("end")] += 1
            return dict(zip(names, xs))
        raise Unknown
    if op == "fld":
        x = tval(t.a[2], env)
        if t.a[0] == "Some" and isinstance(x, tuple) and x[:1] == ("Some",):
            return x[1]
        if not t.a[0] and isinstance(x, tuple) and x[:1] != ("Some",) and t.a[1].isdigit():
            return x[int(t.a[1])]
        raise Unknown
    if op == "case":
        s, it, d = case_items(t)
        l = value_at(s, env)
        if l in it:
            return tval(it[l], env)
        if d is None:
            raise Unknown
        return tval(d, env)
    if op == "discr" and t.a[0] == OPT:
        x = tval(t.a[1], env)
        return "None" if x is None else "Some"
    if op == "any":
        L, src, c = t.a
        xs = tval(src, env)
        if not isinstance(xs, list):
            raise Unknown
        return int(any(value_at(c, {**env, mk("elem", L, src): x, mk("idx", L): i}) for i, x in enumerate(xs)))
    if op == "comp":
        L, src, body = t.a
        xs = tval(src, env)
        if not isinstance(xs, list):
            raise Unknown
        out = []
        for i, x in enumerate(xs):
            v = tval(body, {**env, mk("elem", L, src): x, mk("idx", L): i})
            if not isinstance(v, list):
                raise Unknown
            out += v
        return out
    if op == "contains":
        xs = V(0)
        if not isinstance(xs, list):
            raise Unknown
        return int(V(1) in xs)
    raise Unknown


def value_at(s, env):
    if s.op == "case":
        return tval(s, env)
    if s.op == "discr" and s.a[0] == OPT:
        y = s.a[1]
        if y.op == "call" and last(y.a[0]) == "strip_prefix":
            return "Some" if tval(y.a[1], env).startswith(pat(tval(y.a[2], env))) else "None"
    return tval(s, env)


def text_of(t, env):
    try:
        v = tval(t, env)
    except (Unknown, AttributeError, TypeError, KeyError, IndexError, ValueError):
        return None
    return v if isinstance(v, str) else None


def text_truth(s, env):
    """truth of a condition on texts, or the text or number that is matched, under a valuation"""
    try:
        v = value_at(s, env)
    except (Unknown, AttributeError, TypeError, KeyError, IndexError, ValueError):
        return None
    return v if isinstance(v, (str, int)) else None
