"""R01 client: follow one object from one acquisition site to every exit of the function."""
from . import model, memory, paths, resources
from .ir import Const, Inst, Arg, fname
from .resources import *
from .paths import State, has


class Leak(Res):
    handover = True         # an object held by an object of the caller is no longer followed

    def __init__(self, X, site, role, report):
        super().__init__(X)
        self.site, self.role, self.report = site, role, report

    def init(self, s):
        return None

    def key(self, s):
        if s.prop is None:
            return None
        e, m = self.places(s)
        return (s.prop, frozenset(e), frozenset(map(repr, m)))

    def dead(self, s):
        return s.prop == "done"

    def keepcell(self, v):
        return v == T

    def distinct(self, s, a, b):
        # the new object is not what any other pointer designates unless it was put in another object
        if s.prop is None or s.prop == "done" or s.prop[1]:
            return False
        ta, tb = self.X.base(a)[0] == T, self.X.base(b)[0] == T
        return ta != tb

    def rebind(self, s, t, u):
        if s.prop and s.prop[0] == "L" and t in s.prop[1]:
            if u in s.prop[1]:
                # held by a list of several nodes that were allocated at one place: not followed further
                s.prop = "done"
                return
            s.prop = ("L", (s.prop[1] - {t}) | {u})

    def done(self, s):
        s.prop = "done"

    def live(self, s):
        return s.prop is not None and s.prop != "done"

    # ------------------------------------------------------------- acquisition
    def start(self, s, v, cell=None):
        """a state in which the new object is followed"""
        n = State(s)
        n.facts[T] = (1, 1 << 64, frozenset())
        n.prop = ("L", frozenset())
        if cell:
            if not self.islocal(cell[0]):
                return None
            self.setcell(n, cell, T)
        else:
            n.env[v] = T
        return n

    def call(self, s, i, c):
        c0, c = c, norm(c)
        X = self.X
        here = i is self.site and s.prop is None
        if c in ACQ_RET:
            X.default_call(s, i, c0)
            out = [s]
            n = State(s)
            n.env[i.id] = ("c", 0)
            out.append(n)
            X.nonzero(s, X.sym(s, i))
            if here:
                n = self.start(s, i.id)
                out.append(n)
            return out
        if c in REALLOC or c in INIT:
            old = X.sym(s, i.args[0])
            ot = X.base(old)[0] == T
            out = []
            if not self.isnull(s, old):
                # old object lives on under the result, or (growth only) the request failed
                a = State(s)
                if X.nonzero(a, old):
                    X.default_call(a, i, c0)
                    if ot:
                        if c in REALLOC:
                            # the old addresses are no longer the object
                            e, m = self.places(a)
                            for k in e:
                                a.env[k] = ("moved",)
                            for k in m:
                                del a.mem[k]
                        a.env[i.id] = T
                        out.append(a)
                    elif c in INIT:
                        a.env[i.id] = old
                        out.append(a)
                    else:
                        X.nonzero(a, X.sym(a, i))
                        out.append(a)
                        if here:
                            out.append(self.start(a, i.id))
                            f = self.start_old(a, i, old)
                            if f:
                                out.append(f)
                    if c in REALLOC:
                        b = State(s)
                        X.nonzero(b, old)
                        X.default_call(b, i, c0)
                        b.env[i.id] = ("c", 0)
                        out.append(b)
            if not self.nonnull(s, old):
                a = State(s)
                if X.setfact(a, old, (0, 0, frozenset())):
                    X.default_call(a, i, c0)
                    n = State(a)
                    n.env[i.id] = ("c", 0)
                    out.append(n)
                    X.nonzero(a, X.sym(a, i))
                    out.append(a)
                    if here:
                        out.append(self.start(a, i.id))
            return out
        if c in ACQ_CELL:
            return self.handles(s, i, c0, c, here)
        if c in REL_PTR and c in ("free",) or c in REL_PTR:
            v = X.sym(s, i.args[REL_PTR[c]])
            if self.live(s):
                r, off = X.base(v)
                if r == T:
                    self.done(s)
                    return []
                if s.prop[0] == "L" and r in s.prop[1]:
                    # the only owner goes away: the object must have another holder
                    s.prop = ("L", s.prop[1] - {r})
                    for k in list(s.mem):
                        if k[0] == r:
                            del s.mem[k]
                elif r[0] not in ("c",):
                    if any(v == T for k, v in s.mem.items() if k[0] == r):
                        for k in list(s.mem):
                            if k[0] == r:
                                del s.mem[k]
            X.default_call(s, i, c0)
            return [s]
        if c in REL_CELL:
            cl = self.cell(s, i, REL_CELL[c])
            v = self.getcell(s, cl)
            if self.live(s) and v is not None:
                r = X.base(v)[0]
                if r == T or r in s.prop[1]:
                    self.done(s)
                    return []
            keep = [k for k, x in s.mem.items() if X.base(x)[0] == T and k[:3] != cl]
            sv = {k: s.mem[k] for k in keep}
            X.default_call(s, i, c0)
            s.mem.update(sv)
            self.setcell(s, cl, ("c", 0))
            return [s]
        # any other call: objects held in cells it may overwrite are taken over by it
        if self.live(s):
            e, m = self.places(s)
            X.default_call(s, i, c0)
            e2, m2 = self.places(s)
            if set(m) - set(m2) or self.handover and any(not self.islocal(k[0]) and k[0] not in s.prop[1] for k in m2):
                self.done(s)
                return []
            return [s]
        return None

    def start_old(self, s, i, old):
        return None

    def handles(self, s, i, c0, c, here):
        X = self.X
        cells = {n: self.cell(s, i, n) for n in ACQ_CELL[c]}
        before = {n: self.getcell(s, cl) for n, cl in cells.items()}
        sv = {k: v for k, v in s.mem.items() if X.base(v)[0] == T}
        X.default_call(s, i, c0)
        for k, v in sv.items():
            s.mem[k] = v
        out = [s]
        rd = READERS.get(c)
        if rd is not None and self.isnull(s, X.sym(s, i.args[rd])):
            for n, cl in cells.items():
                if before[n] is not None and X.base(before[n])[0] == T:
                    return []
                self.setcell(s, cl, ("c", 0))
            return [s]
        for n, cl in cells.items():
            if cl is None:
                continue
            kind, mode = ACQ_CELL[c][n]
            b = before[n]
            if b is not None and X.base(b)[0] == T:
                if mode == "clear":
                    # kept on success, released and cleared otherwise
                    o2 = []
                    for x in out:
                        if X.setfact(x, X.sym(x, i), (0, 0, frozenset())):
                            o2.append(x)
                    out = o2
                continue
            if mode == "clear":
                o2 = []
                for x in out:
                    y = State(x)
                    if X.setfact(x, X.sym(x, i), (0, 0, frozenset())):
                        self.setcell(x, cl, b if b is not None and self.nonnull(x, b) else None)
                        o2.append(x)
                    if X.nonzero(y, X.sym(y, i)):
                        self.setcell(y, cl, ("c", 0))
                        o2.append(y)
                out = o2
            if here and n == self.role and b is not None and not self.nonnull(s, b):
                for x in list(out):
                    if mode == "clear" and not self.isnull(x, X.sym(x, i)):
                        continue
                    st = self.start(x, None, cl)
                    if st:
                        out.append(st)
        return out

    # ------------------------------------------------------------- escapes
    def store(self, s, i, root, off, val):
        if not self.live(s):
            return
        X = self.X
        vr = X.base(val)[0]
        if vr == T:
            if root == T:
                return
            k = X.objkind(root)
            if k == "alloca":
                return
            if k == "heap" and root[0] == "v" and not self.published(s, root, s.prop[1]):
                s.prop = ("L", s.prop[1] | {root})
                return
            self.done(s)
        elif vr in s.prop[1] and root != vr:
            k = X.objkind(root)
            if k == "alloca":
                return
            if k == "heap" and root[0] == "v" and not self.published(s, root, s.prop[1]):
                s.prop = ("L", s.prop[1] | {root})
                return
            self.done(s)

    def published(self, s, root, owners):
        """root is already held by an object of the caller"""
        return any(self.X.base(v)[0] == root and not self.islocal(k[0]) and k[0] not in owners and k[0] != root
                   and self.X.objkind(k[0]) != "heap"
                   for k, v in s.mem.items())

    def after(self, s, i, c):
        pass

    def ret(self, s, i, val):
        if not self.live(s):
            return
        X = self.X
        if val is not None:
            r = X.base(val)[0]
            if r == T or r in s.prop[1] or X.mentions_(val, T):
                return
        e, m = self.places(s)
        if any(not self.islocal(k[0]) and k[0] not in s.prop[1] for k in m):
            return
        self.report(self, s, i)


class Grow(Leak):
    """a growth request that fails leaves the old object, which must stay reachable"""
    handover = False

    def start(self, s, v, cell=None):
        return None

    def call(self, s, i, c):
        n = norm(c)
        if i is self.site and s.prop is None and n in REALLOC:
            X = self.X
            old = X.sym(s, i.args[0])
            r = X.base(old)[0]
            if r[0] in ("v", "j", "a") and not self.isnull(s, old):
                f = State(s)
                if X.nonzero(f, old):
                    X.default_call(f, i, c)
                    for d in (f.env, f.mem):
                        for k, x in list(d.items()):
                            if paths.mentions(x, r):
                                d[k] = paths.subst(x, r, T)
                    f.facts[T] = (1, 1 << 64, frozenset())
                    f.env[i.id] = ("c", 0)
                    f.prop = ("L", frozenset())
                    if self.places(f)[1] or self.places(f)[0]:
                        rest = super().call(s, i, c)
                        return [x for x in (rest or [s]) if x is not None] + [f]
        out = super().call(s, i, c)
        return None if out is None else [x for x in out if x is not None]


def sites(f):
    for i in f.insts():
        if i.op != "call":
            continue
        c = norm(model.callee(i) or "")
        if c in ACQ_RET:
            yield i, None, ACQ_RET[c]
        elif c in REALLOC:
            yield i, None, "grown block"
        elif c in INIT:
            yield i, None, INIT[c]
        elif c in ACQ_CELL:
            for n, (k, m) in ACQ_CELL[c].items():
                if n < len(i.args) and not (isinstance(i.args[n], Const) and i.args[n].k == "null"):
                    yield i, n, k
