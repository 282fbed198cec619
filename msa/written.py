"""Output streams: which calls write or finish them, and clients that follow a write or close that failed (E01)."""
from . import model, paths, failflow, resources
from .ir import Const, Inst, Arg
from .paths import State, has
from .resources import T, norm

WRITE = {"fwrite": 3, "fputs": 1, "fputc": 1, "putc": 1, "fprintf": 0, "vfprintf": 0, "putchar": None, "puts": None}
# writes that bypass the stream and its error indicator
RAW = {"write", "pwrite", "pwrite64", "writev", "send", "sendto", "_write", "syscall"}
FINISH = {"fclose": 0, "fflush": 0}
E0 = frozenset()


def origins(P, v, seen=None):
    """where a stream comes from: ('r',) opened for reading, ('w',) for writing, ('std', name), ('arg', n), ('?',)"""
    seen = set() if seen is None else seen
    if isinstance(v, Const):
        return {("std", v.n)} if v.k == "gv" else set()
    if isinstance(v, Arg):
        return {("arg", v.i)}
    if v.id in seen:
        return set()
    seen.add(v.id)
    if v.op == "phi":
        return set().union(*[origins(P, a, seen) for a in v.args]) if v.args else set()
    if v.op == "select":
        return origins(P, v.args[1], seen) | origins(P, v.args[2], seen)
    if v.op in ("bitcast", "freeze"):
        return origins(P, v.args[0], seen)
    if v.op == "call":
        c = norm(model.callee(v) or "")
        if c in ("fopen", "fdopen", "freopen"):
            return {("r",) if m and set(m) <= set("rb") else ("w",) for m in modes(P, v.args[1])}
        return {("?",)}
    if v.op == "load":
        a = v.args[0]
        if isinstance(a, Const) and a.k == "gv":
            return {("std", a.n)}
        if isinstance(a, Inst) and a.op == "alloca":
            out = set()
            for u in a.uses:
                if u.op == "store" and u.args[1] is a:
                    out |= origins(P, u.args[0], seen)
                elif u.op not in ("load", "dbg") and not (u.op == "call" and (model.callee(u) or "").startswith("llvm.")):
                    out.add(("?",))
            return out
    return {("?",)}


def modes(P, v, seen=None):
    """texts an open mode can be ('' when unknown)"""
    seen = set() if seen is None else seen
    if isinstance(v, Const):
        t = P.gstring(v)
        return {t if t is not None else ""}
    if isinstance(v, Inst) and v.op in ("phi", "select") and v.id not in seen:
        seen.add(v.id)
        return set().union(*[modes(P, a, seen) for a in (v.args if v.op == "phi" else v.args[1:])])
    return {""}


def output(P, f, v):
    """the stream may be one that is written"""
    o = origins(P, v)
    return any(x[0] in ("w", "arg") or x == ("std", "stdout") for x in o)


class Short(failflow.Fail):
    """a write that stores fewer elements than requested"""

    def __init__(self, X, site, fact, report):
        super().__init__(X, site, fact, report)
        self.want = None

    def call(self, s, i, c):
        if i is self.site and s.prop is None and norm(c) == "fwrite":
            self.want = self.X.sym(s, i.args[2])
        return super().call(s, i, c)

    def strip(self, x):
        while x[0] == "e" and x[1] in ("zext", "sext", "trunc"):
            x = x[2]
        return x

    def distinct(self, s, a, b):
        if s.prop is None or self.want is None:
            return False
        a, b, w = self.strip(a), self.strip(b), self.strip(self.want)
        return a == T and b == w or b == T and a == w


def writers(P):
    """functions that write a stream they are given as a parameter, with no result to report a failure"""
    out = {}
    for f in P.defined:
        if f.skipped or f.rty != "void":
            continue
        for i in f.insts():
            if i.op == "call" and norm(model.callee(i) or "") in WRITE:
                n = WRITE[norm(model.callee(i))]
                if n is not None and n < len(i.args):
                    for o in origins(P, i.args[n]):
                        if o[0] == "arg":
                            out.setdefault(f.name, set()).add(o[1])
    return out


class Checked(paths.Client):
    """site hands a stream to a routine that writes it through a callback without a result.  Before success is returned the
    error indicator is read and the stream is finished."""

    def __init__(self, X, site, indicator, report):
        super().__init__(X)
        self.site, self.indicator, self.report = site, indicator, report

        self.web = failflow.web(X.f)

    def key(self, s):
        return s.prop and (tuple(sorted(s.prop)), failflow.webkey(self.X, s, self.web))

    def call(self, s, i, c):
        X = self.X
        if i is self.site:
            X.default_call(s, i, c)
            s.prop = frozenset({"W"})
            return [s]
        if s.prop is None:
            return None
        n = norm(c)
        if n == "ferror":
            s.prop |= {"E"}
        elif n in ("fclose", "fflush"):
            s.prop |= {"C"}
            if n == "fclose" and "E" not in s.prop:
                s.prop |= {"X"}         # closed before the indicator was read
        return None

    def ret(self, s, i, val):
        if s.prop is None:
            return
        f = self.X.f
        v = self.X.fact(s, val) if val is not None else None
        if val is None or not failflow.fails(f, v):
            if not self.indicator:
                if "C" not in s.prop:
                    self.report(s, i, "the stream is not closed or flushed")
            elif "E" not in s.prop:
                self.report(s, i, "the error indicator of the stream is not read")
            elif "X" in s.prop:
                self.report(s, i, "the stream is closed before its error indicator is read")
            elif "C" not in s.prop:
                self.report(s, i, "the stream is not closed or flushed")
