"""Readers whose source delivers nothing more (T01): the loop around msio_fread is left within two rounds unless it moved on."""
from . import ir, model, paths
from .ir import Inst
from .resources import norm

READ, EOF, PARSE, POS = "msio_fread", "msio_feof", "msr3_parse", "MS3FileParam.readoffset"


class Stall(paths.Client):
    """prop: (what the last read in the loop delivered, the source is at its end (None: not known),
    how often each end-of-source call has answered yes since the reader moved or tried to parse,
    parse attempts made at the end of the source since the reader moved)"""

    def __init__(self, X, body, report):
        super().__init__(X)
        self.body, self.report = body, report

    def init(self, s):
        return (None, None, (), frozenset())

    def split(self, s, i, ranges):
        out = []
        for r, p in ranges:
            t = State(s)
            self.X.default_call(t, i, model.callee(i) or "")
            self.X.setfact(t, self.X.sym(t, i), (r[0], r[1], frozenset()))
            t.prop = p
            out.append(t)
        return out

    def call(self, s, i, c):
        n = norm(c)
        r, e, yes, tried = s.prop
        if n == READ:
            if i.b.id not in self.body:
                self.X.default_call(s, i, c)
                s.prop = (None, None, (), frozenset())
                return [s]
            if r == "nothing" and e is not True:
                self.report(i, "reads again although the read before delivered nothing and the source is not at its end")
                return []
            return self.split(s, i, [((1, (1 << 31) - 1), ("some", None, (), tried)), ((0, 0), ("nothing", None, yes, tried)),
                                     ((-(1 << 31), -1), ("nothing", None, yes, tried))])
        if n == EOF:
            out = []
            if e is not False:
                k = dict(yes)
                k[i.id] = k.get(i.id, 0) + 1
                if k[i.id] > 2:
                    self.report(i, "goes round again at the end of the source although there is nothing left to parse")
                else:
                    out += [((1, 1), (r, True, tuple(sorted(k.items())), tried))]
            if e is not True:
                out += [((0, 0), (r, False, yes, tried))]
            return self.split(s, i, out)
        if n == PARSE:
            if e is True and i.id in tried:
                self.report(i, "parses the same bytes again at the end of the source")
                return []
            self.X.default_call(s, i, c)
            s.prop = (r, e, (), tried | {i.id} if e is True else tried)
            return [s]
        return None

    def keepfact(self, x):
        """how much is left between two positions"""
        return x[0] == "e" and x[1] == "sub"

    def store(self, s, i, root, off, val):
        if POS != self.X.fieldof(i, i.args[1]):
            return
        while val[0] == "e" and val[1] in ("trunc", "sext", "zext"):
            val = val[2]
        if val[0] == "e" and val[1] == "add":
            s.prop = (None, s.prop[1], (), frozenset())


State = paths.State


def check(R, P=None):
    P = ir.load(inlined=True, keep_extra=(READ, EOF))
    for f in P.defined:
        if f.skipped or f.file.startswith("yyjson") or norm(f.name) in (READ, EOF):
            continue
        sites = [i for i in f.insts() if i.op == "call" and norm(model.callee(i) or "") == READ]
        inloop = set().union(*f.dom().loops().values()) if f.dom().loops() else set()
        if not any(i.b.id in inloop for i in sites):
            continue
        bad = {}
        X = paths.Explorer(f)
        X.maxsteps = 20000
        try:
            X.run(Stall(X, inloop, lambda i, t: bad.setdefault(t, i)))
        except paths.TooBig:
            R.undecided("%s: too many paths for the stalled source" % f.name)
            continue
        R.count("readers_with_a_stalled_source")
        R.sample("%s: leaves its loop when its source delivers nothing" % f.name)
        for t, i in bad.items():
            R.violation("%s:stalled" % f.name, "%s %s" % (i.where(), t))
    R.need("readers_with_a_stalled_source", 1)
