"""R02 client: follow one object from the call that releases it to every exit of the function."""
from . import model, paths, resources
from .ir import Const, Inst
from .paths import State
from .resources import T, norm, Res, REL_PTR, REL_CELL, REALLOC


class Released(Res):
    def __init__(self, X, site, report):
        super().__init__(X)
        self.site, self.report = site, report

    def key(self, s):
        if s.prop is None:
            return None
        e, m = self.places(s)
        return (s.prop, frozenset(e), frozenset(map(repr, m)))

    def dead(self, s):
        if s.prop is None:
            return False
        e, m = self.places(s)
        return not e and not m

    def keepcell(self, v):
        return v == T

    def follow(self, s, i, v):
        """a state in which the object v designates has been released"""
        r, off = self.X.base(v)
        if r[0] not in ("v", "j", "a") or self.isnull(s, v) or self.X.objkind(r) == "alloca":
            return None
        n = State(s)
        if not self.X.nonzero(n, r):
            return None
        for d in (n.env, n.mem):
            for k in list(d):
                if paths.mentions(d[k], r):
                    d[k] = paths.subst(d[k], r, T)
        for k in list(n.mem):
            if paths.mentions(k[0], r):
                del n.mem[k]
        n.facts[T] = (1, 1 << 64, frozenset())
        n.prop = "R"
        return n

    def drop(self, s, v):
        """another object goes away: its members are no cells any more"""
        r = self.X.base(v)[0]
        rs = {r}
        if r[0] == "v":
            # what was read from the same place before is taken for the same object
            i = self.X.f.byid[r[1]]
            if i.op == "load":
                a = model.addr(i.args[0])
                for k in s.mem:
                    j = self.X.f.byid[k[0][1]] if k[0][0] == "v" else None
                    if j is not None and j.op == "load" and not a[2] and model.addr(j.args[0]) == a:
                        rs.add(k[0])
        for k in list(s.mem):
            if k[0] in rs and self.X.objkind(k[0]) != "alloca":
                del s.mem[k]

    def call(self, s, i, c):
        X = self.X
        n = norm(c)
        if s.prop is not None:
            for k, a in enumerate(i.args):
                if not isinstance(a, Const) and a.ty == "ptr" and X.base(X.sym(s, a))[0] == T:
                    self.report(s, i, "is released again" if n in REL_PTR else "is used")
                    return []
        if n in REL_PTR:
            v = X.sym(s, i.args[REL_PTR[n]])
            out = [s]
            if i is self.site and s.prop is None:
                f = self.follow(s, i, v)
                if f:
                    X.default_call(f, i, c)
                    out.append(f)
            self.drop(s, v)
            X.default_call(s, i, c)
            return out
        if n in REL_CELL:
            cl = self.cell(s, i, REL_CELL[n])
            v = self.getcell(s, cl)
            out = [s]
            if v is not None and X.base(v)[0] == T:
                self.report(s, i, "is released again")
                return []
            if i is self.site and s.prop is None and v is not None:
                f = self.follow(s, i, v)
                if f:
                    self.setcell(f, cl, ("c", 0))
                    X.default_call(f, i, c)
                    self.setcell(f, cl, ("c", 0))
                    out.append(f)
            if v is not None:
                self.drop(s, v)
            keep = {k: x for k, x in s.mem.items() if x == T and k[:3] != cl}
            X.default_call(s, i, c)
            s.mem.update(keep)
            self.setcell(s, cl, ("c", 0))
            return out
        if n in REALLOC and i is self.site and s.prop is None:
            # a growth that succeeds releases the old block
            old = X.sym(s, i.args[0])
            f = self.follow(s, i, old)
            out = [s]
            if f:
                X.default_call(f, i, c)
                X.nonzero(f, X.sym(f, i))
                out.append(f)
            X.default_call(s, i, c)
            return out
        return None

    def access(self, s, i, p, mode):
        if s.prop is not None and self.X.base(p)[0] == T:
            self.report(s, i, "is accessed")

    def ret(self, s, i, val):
        if s.prop is None:
            return
        X = self.X
        if val is not None and X.base(val)[0] == T:
            self.report(s, i, "is returned")
            return
        for k in self.places(s)[1]:
            r = k[0]
            if r == T or self.islocal(r):
                continue
            # a member of an object that was made here and is not reachable by the caller is nobody's
            if X.objkind(r) == "heap" and not self.reachable(s, r, val):
                continue
            self.report(s, i, "stays in %s" % self.cellname(k))

    def reachable(self, s, r, val):
        if val is not None and self.X.base(val)[0] == r:
            return True
        return any(self.X.base(v)[0] == r and not self.islocal(k[0]) for k, v in s.mem.items())

    def cellname(self, k):
        r, off, sz, fl = k
        return fl or ("%s+%s" % (r[1], off))


def sites(f):
    for i in f.insts():
        if i.op == "call":
            c = norm(model.callee(i) or "")
            if c in REL_PTR or c in REL_CELL or c in REALLOC:
                yield i, c
