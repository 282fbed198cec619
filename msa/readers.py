"""Clients for the file readers (R05): what is left of the caller's handles when a read, open or close ends."""
from . import model, paths, failflow, resources
from .ir import Const, Inst
from .resources import norm

READING = {"msr3_parse": 2, "msio_fopen": None, "msio_fread": None, "fopen": None, "fread": None, "fseeko": None,
           "curl_easy_init": None, "curl_easy_duphandle": None, "curl_easy_setopt": None, "curl_multi_perform": None}
READER = {"ms3_readmsr_r": 1, "ms3_readmsr_selection": 1}


class Cleared(paths.Client):
    """a reader that fails after it touched the input has released and cleared the record handle (parameter n)"""

    def __init__(self, X, n, report):
        super().__init__(X)
        self.n, self.report = n, report
        self.web = failflow.web(X.f)

    def init(self, s):
        return "N"

    def key(self, s):
        return (s.prop, failflow.webkey(self.X, s, self.web))

    def mine(self, s, i, k):
        return self.X.sym(s, i.args[k]) == ("a", self.n)

    def call(self, s, i, c):
        n = norm(c)
        X = self.X
        if n == "msr3_free" and self.mine(s, i, 0):
            s.prop = "C"
        elif n in READING:
            s.prop = "D"
        elif n in READER and self.mine(s, i, READER[n]):
            a = paths.State(s)
            for t, pr, fact in ((s, "D", (0, 0, failflow.E0)), (a, "C", None)):
                X.default_call(t, i, c)
                t.prop = pr
                x = X.sym(t, i)
                if fact:
                    X.setfact(t, x, fact)
                else:
                    X.nonzero(t, x)
            return [s, a]
        return None

    def ret(self, s, i, val):
        if s.prop != "D" or val is None:
            return
        f = self.X.fact(s, val)
        if not (f[0] == 0 == f[1]):
            self.report(s, i)


class Cleanup(paths.Client):
    """the cleanup call of a reader: stream closed, buffer released, record released, parameters released and cleared"""

    def __init__(self, X, path, report):
        super().__init__(X)
        self.path, self.report = path, report

    def init(self, s):
        s.facts[("a", self.path)] = (0, 0, failflow.E0)
        return frozenset()

    def keepfact(self, x):
        return x == ("a", self.path)

    def key(self, s):
        return (tuple(sorted(s.prop)),) + (self.cellnull(s, *HANDLE), self.cellnull(s, *TYPE), self.cellnull(s, "MS3FileParam.readbuffer"))

    def dead(self, s):
        """a stream has one of the four kinds"""
        return any(k[3] in TYPE and not self.X.setfact(s, v, (0, 3, failflow.E0)) for k, v in list(s.mem.items()))

    def cellnull(self, s, *field):
        for k, v in s.mem.items():
            if k[3] in field:
                f = self.X.fact(s, v)
                if f[0] == 0 == f[1]:
                    return True
        return False

    def origin(self, s, v):
        """field a value was read from"""
        x = self.X.base(self.X.sym(s, v))[0]
        if x[0] == "v":
            i = self.X.f.byid[x[1]]
            if i.op == "load":
                return model.fields(self.X.P, i.args[0]) if isinstance(i.args[0], Inst) else None, self.X.base(self.X.sym(s, i.args[0]))[0]
        return None, x

    def snapshot(self, s):
        if "handle" not in s.prop and (self.cellnull(s, *HANDLE, *TYPE)):
            s.prop |= {"handle"}
        if "buffer" not in s.prop and self.cellnull(s, "MS3FileParam.readbuffer"):
            s.prop |= {"buffer"}

    def call(self, s, i, c):
        n = norm(c)
        X = self.X
        if n == "msr3_free":
            s.prop |= {"record"}
        elif n == "msio_fclose":
            if "handle" in s.prop:
                self.report(s, i, "the stream is closed a second time")
            s.prop |= {"handle"}
        elif n in CLOSERS and self.origin(s, i.args[CLOSERS[n]])[0] in HANDLE:
            if "handle" in s.prop:
                self.report(s, i, "the stream is closed a second time")
            s.prop |= {"handle"}
        elif n == "mem:free" or n == "free":
            fl, _ = self.origin(s, i.args[0])
            if fl == "MS3FileParam.readbuffer":
                if "buffer" in s.prop and not self.cellnull(s, "MS3FileParam.readbuffer"):
                    self.report(s, i, "the read buffer is released a second time")
                s.prop |= {"buffer"}
            else:
                self.snapshot(s)
                s.prop |= {"params"}
        elif n.startswith("llvm.memcpy") and isinstance(i.args[0], Const) and i.args[0].n == "gMS3FileParam":
            self.snapshot(s)
            s.prop |= {"params", "zero"}
        return None

    def store(self, s, i, root, off, val):
        if val == ("c", 0) and root == ("a", 0) and off == 0 and "params" in s.prop:
            s.prop |= {"zero"}

    def ret(self, s, i, val):
        f = self.X.fact(s, val)
        if f[0] == 0 == f[1]:
            for k, t in (("handle", "the stream is not closed"), ("buffer", "the read buffer is not released"),
                         ("record", "the record is not released"), ("params", "the read parameters are neither released nor reset"),
                         ("zero", "the handle of the read parameters is not cleared")):
                if k not in s.prop:
                    self.report(s, i, t)


class Opened(paths.Client):
    """a failing open leaves no open handle in the caller's structure (parameter n)"""

    def __init__(self, X, n, report):
        super().__init__(X)
        self.n, self.report = n, report
        self.web = failflow.web(X.f)

    def init(self, s):
        return None

    def store(self, s, i, root, off, val):
        if root == ("a", self.n) and model.fields(self.X.P, i.args[1]) in HANDLE:
            s.prop = None if val == ("c", 0) else "O"

    def call(self, s, i, c):
        if norm(c) == "msio_fclose" and self.X.sym(s, i.args[0]) == ("a", self.n):
            s.prop = None
        return None

    def key(self, s):
        return (s.prop, failflow.webkey(self.X, s, self.web))

    def ret(self, s, i, val):
        if s.prop != "O":
            return
        f = self.X.fact(s, val)
        if f[0] == 0 == f[1]:
            return
        for k, v in s.mem.items():
            if k[0] == ("a", self.n) and k[3] in HANDLE:
                g = self.X.fact(s, v)
                if g[0] == 0 == g[1]:
                    return
        self.report(s, i)


HANDLE = ("LMIO.handle",)
# the first member of an embedded stream structure
TYPE = ("LMIO.type", "MS3FileParam.input")
CLOSERS = {"fclose": 0, "curl_easy_cleanup": 0}


class Closed(paths.Client):
    """closing: the handle is closed exactly once and cleared, whatever the kind of stream"""

    def __init__(self, X, kind, report):
        super().__init__(X)
        self.kind, self.report = kind, report

    def init(self, s):
        s.facts[("a", 0)] = (1, 1 << 64, failflow.E0)
        for n, o, z in self.X.P.distructs["LMIO"]:
            if n == "type":
                s.mem[(("a", 0), o, z, "LMIO.type")] = ("c", self.kind)
        return (0, "old")

    def keepfact(self, x):
        return x == ("a", 0)

    def key(self, s):
        return s.prop

    def call(self, s, i, c):
        n = norm(c)
        if n in CLOSERS:
            x = self.X.base(self.X.sym(s, i.args[0]))[0]
            j = self.X.f.byid.get(x[1]) if x[0] == "v" else None
            if j is not None and j.op == "load" and model.fields(self.X.P, j.args[0]) in HANDLE:
                if s.prop[0]:
                    self.report(s, i, "the handle is closed a second time")
                s.prop = (1, s.prop[1])
        return None

    def store(self, s, i, root, off, val):
        if root == ("a", 0) and model.fields(self.X.P, i.args[1]) in HANDLE:
            s.prop = (s.prop[0], "null" if val == ("c", 0) else "old")

    def ret(self, s, i, val):
        if s.prop[1] == "old":
            for k, v in s.mem.items():
                if k[0] == ("a", 0) and k[3] in HANDLE:
                    g = self.X.fact(s, v)
                    if g[0] == 0 == g[1]:
                        return                      # there was nothing to close
            self.report(s, i, "the handle is not cleared")
        elif not s.prop[0]:
            for k, v in s.mem.items():
                pass
            self.report(s, i, "the handle is cleared without being closed")
