from . import server_rules as s
from . import booking_rules as b
from . import diag_rules as g
from . import conv_rules as k
from . import wire_rules as w
from . import lint_rules as n
from . import client_rules as c
from . import tools_rules as t

RULES = {"C01": s.C01, "C02": s.C02, "C03": s.C03, "C06": s.C06, "C08": s.C08, "C30": s.C30}
RULES.update({x: getattr(b, x) for x in ("C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22")})
RULES["C29"] = g.C29
RULES["C07"] = k.C07
RULES["C31"] = k.C31
RULES.update({"C09": w.C09, "C11": w.C11, "C12": w.C12})
RULES["C10"] = n.C10
RULES.update({"C26": c.C26, "C27": c.C27})
RULES.update({x: getattr(t, x) for x in ("C04", "C23", "C24", "C25")})

from . import order_rules as o
RULES["C28"] = o.C28
from . import panic_rules as pn
RULES["C05"] = pn.C05
from . import query_rules as q
RULES.update({x: getattr(q, x) for x in ("C32", "C33", "C34")})
