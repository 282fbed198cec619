"""Does every failing return of a function have a logged message behind it? (E03)"""
import os, re
from . import model, paths, failflow, resources, build
from .ir import Const, Inst
from .paths import State, has

NST = failflow.NST


def failing(f, v):
    """the fact is a failure value that has to be explained"""
    n = resources.norm(f.name)
    if v is None:
        return False
    if n in failflow.NSTF:
        return v[0] == v[1] == NST
    if n in failflow.POSF:
        return v[0] > 0
    if f.rty == "ptr":
        return v[0] == v[1] == 0
    if f.rty in ("i32", "i64"):
        return v[1] < 0
    return False


def leaves(f):
    """values the result of f is chosen from"""
    out, seen = [], set()
    todo = [i.args[0] for i in f.insts() if i.op == "ret" and i.args]
    while todo:
        v = todo.pop()
        if isinstance(v, Inst):
            if v.id in seen:
                continue
            seen.add(v.id)
            if v.op in ("phi", "sext"):
                todo += v.args
                continue
            if v.op == "select":
                todo += v.args[1:]
                continue
        out.append(v)
    return out


def retrange(P, f, depth=0):
    """range of the result over all returns: constants, and results of other routines"""
    r = None
    for v in leaves(f):
        g = P.funcs.get(model.callee(v)) if isinstance(v, Inst) and v.op == "call" else None
        if isinstance(v, Const) and v.k == "int":
            q = (v.v, v.v, frozenset())
        elif g is not None and not g.decl and depth < 4:
            q = retrange(P, g, depth + 1)
        else:
            return paths.FULL
        r = paths.join(r, q) if r else q
    return r or paths.FULL


def passing(P, f):
    return paths.meet(passing1(f), retrange(P, f)) if f.rty in ("i32", "i64") else passing1(f)


def passing1(f):
    """(lo, hi, excluded): the result of f when it did not fail"""
    n = resources.norm(f.name)
    if n in failflow.NSTF:
        return (paths.FULL[0], paths.FULL[1], frozenset({NST}))
    if n in failflow.POSF:
        return (0, 0, frozenset())
    if f.rty == "ptr":
        return (paths.FULL[0], paths.FULL[1], frozenset({0}))
    return (0, paths.FULL[1], frozenset())


# routines that return the expected count or fail: a comparison of the result with the expected count holds
EXACT = {"msr3_unpack_data"}


class Silent(failflow.Fail):
    """follows only what has not been explained: paths end at a message and where a routine that explains fails"""

    def __init__(self, X, explains, report):
        super().__init__(X, None, None, report)
        self.explains = explains
        X.nowrap = True

    def key(self, s):
        return failflow.webkey(self.X, s, self.web)

    def init(self, s):
        n = resources.norm(self.X.f.name)
        if n.startswith(("msr_decode_", "msr_encode_")):
            # the internal coders are called with buffers and a size
            for a in self.X.f.args:
                if a.ty in ("ptr", "i64"):
                    s.facts[("a", a.i)] = (paths.FULL[0], paths.FULL[1], frozenset({0}))
        return None

    def keepfact(self, x):
        return False

    def same(self, s, a, b):
        for x in (a, b):
            while x[0] == "e" and x[1] in ("zext", "sext", "trunc"):
                x = x[2]
            if x[0] == "v":
                i = self.X.f.byid.get(x[1])
                if i is not None and i.op == "call" and resources.norm(model.callee(i) or "") in EXACT:
                    return True
        return False

    def call(self, s, i, c):
        X = self.X
        if failflow.islog(i, c):
            return []
        g = X.f.prog.funcs.get(c) if hasattr(X.f, "prog") else None
        g = g or self.prog.funcs.get(c)
        if g is not None and c in self.explains:
            X.default_call(s, i, c)
            return [s] if X.setfact(s, X.sym(s, i), passing(self.prog, g)) else []
        return None

    def ret(self, s, i, val):
        if val is None:
            return
        for t, x in self.arms(s, val):
            v = self.X.fact(t, x)
            # error codes are constants or results of calls; a negative count is neither
            if failing(self.X.f, v) and (v[0] > -1000 or v[0] == v[1] or self.iscall(x)):
                self.report(t, i, v)

    def iscall(self, x):
        while x[0] == "e" and x[1] in ("sext", "zext", "trunc"):
            x = x[2]
        i = self.X.f.byid.get(x[1]) if x[0] == "v" else None
        return i is not None and i.op == "call"


def documented(marker="MessageOnError"):
    """names of the routines whose description says that they log when they fail"""
    out = set()
    for d in ("libmseed",):
        p = os.path.join(build.REPO, d)
        for n in sorted(os.listdir(p)):
            if n.endswith(".c") and not n.startswith("yyjson"):
                s = open(os.path.join(p, n), errors="replace").read()
                for m in re.finditer(r"/\*\*(?:(?!\*/).)*?%s(?:(?!\*/).)*?\*/\s*([^;{]*?)\b(\w+)\s*\([^;{]*\)\s*\{" % marker, s, re.S):
                    out.add(m.group(2))
    return out
