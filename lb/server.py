"""The serving loop: what each kind of request is answered with, as terms over the request, the ledger and
the loop's state."""
from engine.terms import *
from engine.interp import Interp
from . import facts


def is_call(t, name):
    return t.op == "call" and t.a[0] == name


class Answer:
    """one way an iteration of the serving loop ends"""

    def __init__(self, st, loop):
        self.state, self.loop = st, loop
        self.pc = st.pc
        self.writes = [e for e in st.eff if e.kind == "write"]
        self.eff = st.eff


class Server:
    def __init__(self, opaque=()):
        self.p = facts.program("lib")
        roots = [b for b in self.p.bodies.values() if b["kind"] == "mono" and b["path"].split("::")[-1] == "serve" and b["defkind"] in ("Fn", "fn")]
        roots = [b for b in self.p.bodies.values() if b["kind"] == "mono" and b["path"].split("::")[-1] == "serve" and not b["path"].startswith("<")
                 and b["argc"] == 1 and not b.get("impl_self")] or roots
        if not roots:
            raise facts.CannotDecide("no serve function")
        self.root = roots[0]
        self.I = I = Interp(self.p, opaque=opaque)
        self.path = mk("param", "path")
        self.outs = I.entry(self.root, [self.path])
        self.loops = []
        for l in I.loops:
            if l.backs and self.reads_line(l):
                self.loops.append(l)
        self.answers = [Answer(s, l) for l in self.loops for s in l.backs]
        self.find_atoms()

    def reads_line(self, l):
        return any(e.kind == "call" and "read_line" in str(e.data[0]) or e.kind == "call" and "read_until" in str(e.data[0]) for s in l.backs for e in s.eff) or (
            l.src is not None and any(is_call(x, "BufRead::lines") for x in subterms(l.src)))

    def find_atoms(self):
        """the questions the loop asks about the outside world"""
        scs = set()
        for a in self.answers:
            scs |= a.pc.sc | BOOLS_IN(a.pc)
            for w in a.writes:
                scs |= w.data[-1].sc
        self.atoms = scs
        self.reqcalls = [s for s in scs if s.op == "discr" and s.a[0] == RES and is_call(s.a[1], "serde_json::from_str")]
        self.parses = [s for s in scs if s.op == "discr" and s.a[0] == RES and is_call(s.a[1], "BeancountParser::parse")]
        self.sources = [s for s in scs if s.op == "discr" and s.a[0] == RES and is_call(s.a[1], "TryFrom::try_from") and s.a[1].a[1] is self.path]
        self.inputs = [s for s in scs if s.op == "discr" and s.a[0] == RES and s.a[1].op == "call" and "read_line" in s.a[1].a[0]]
        self.sers = [s for s in scs if s.op == "discr" and s.a[0] == RES and s.a[1].op == "call" and s.a[1].a[0].startswith("serde_json::to_")]
        self.wrs = [s for s in scs if s.op == "discr" and s.a[0] == RES and is_call(s.a[1], "io_result")]
        self.reqs = {s.a[1] for s in self.reqcalls}
        self.reqok = {fld("Ok", "0", r) for r in self.reqs}
        self.reqerr = {fld("Err", "0", r) for r in self.reqs}
        self.methods = [s for s in scs if s.op == "discr" and s.a[1].op == "fld" and s.a[1].a[2] in self.reqok and s.a[0] in self.p.adts]
        self.versions = [s for s in scs if s.op == "fld" and s.a[2] in self.reqok]
        # n == 0
        counts = {fld("Ok", "0", s.a[1]) for s in self.inputs}
        self.eofs = [s for s in scs if s.op in ("lt", "eq", "isempty", "pred") and any(x.op in ("call", "after") and "read_line" in x.a[0] for x in subterms(s))] + [s for s in scs if s in counts]

    def assume(self, method=None, version="2.0", request="Ok", parse=None, sources=None):
        """restrict every answer to a kind of request and ledger -> [(Answer, pc, f)] with f simplifying terms"""
        m = []
        for s in self.inputs:
            m.append((s, "Ok"))
        for s in self.sers + self.wrs:
            m.append((s, "Ok"))
        for s in self.reqcalls:
            m.append((s, request))
        if request == "Ok" and version is not None:
            for s in self.versions:
                m.append((s, version))
        if method is not None:
            for s in self.methods:
                m.append((s, method))
        if parse is not None:
            for s in self.parses:
                m.append((s, parse))
        if sources is not None:
            for s in self.sources:
                m.append((s, sources))
        out = []

        def f(t):
            for s, l in m:
                t = restrict_any(t, s, l)
            return t
        for a in self.answers:
            pc = f(a.pc)
            if pc is FALSE or pc is BOT:
                continue
            out.append((a, pc, f))
        return out


def restrict_any(t, s, l):
    """restrict where the label may be an unlisted one (None: none of the listed)"""
    return restrict(t, s, l)
