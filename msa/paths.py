"""Path-sensitive abstract execution of one function (property simulation): the state of a client's
property is part of the partition key, everything else known about the path is joined.  Values are
symbols; facts about symbols (constant, range, zero / non-zero) come from the branches taken, so
infeasible combinations of correlated tests are pruned.  No code is run and no solver is involved."""
from . import model, memory
from .ir import Const, Inst, Arg, fname

FULL = (-(1 << 64), 1 << 65, frozenset())
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "uge": "ule", "ule": "uge",
        "slt": "sgt", "sgt": "slt", "sge": "sle", "sle": "sge"}
PURE = {"trunc", "zext", "sext", "and", "or", "xor", "shl", "lshr", "ashr", "add", "sub", "mul", "udiv", "sdiv",
        "urem", "srem", "select", "icmp", "ptrtoint", "inttoptr", "fcmp", "fadd", "fsub", "fmul", "fdiv", "fneg", "sitofp", "uitofp",
        "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "freeze"}


class TooBig(Exception):
    pass


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    ex = a[2] | b[2]
    while lo in ex and lo <= hi:
        lo += 1
    while hi in ex and lo <= hi:
        hi -= 1
    return (lo, hi, frozenset(x for x in ex if lo < x < hi))


def join(a, b):
    ex = frozenset(x for x in a[2] | b[2] | ({0} if a[0] > 0 or a[1] < 0 or b[0] > 0 or b[1] < 0 else set())
                   if not has(a, x) and not has(b, x))
    lo, hi = min(a[0], b[0]), max(a[1], b[1])
    return (lo, hi, frozenset(x for x in ex if lo <= x <= hi))


def has(a, x):
    return a[0] <= x <= a[1] and x not in a[2]


def mentions(s, t):
    if s == t:
        return True
    return isinstance(s, tuple) and any(mentions(x, t) for x in s if isinstance(x, tuple))


def subst(s, t, u):
    if s == t:
        return u
    if isinstance(s, tuple):
        for x in s:
            if isinstance(x, tuple) and mentions(x, t):
                return tuple(subst(x, t, u) if isinstance(x, tuple) else x for x in s)
    return s


class State:
    __slots__ = ("env", "mem", "facts", "prop", "trace")

    def __init__(self, o=None):
        if o is None:
            self.env, self.mem, self.facts, self.prop, self.trace = {}, {}, {}, None, ()
        else:
            self.env, self.mem, self.facts, self.prop, self.trace = dict(o.env), dict(o.mem), dict(o.facts), o.prop, o.trace

    def rename(self, t, u):
        """every mention of t becomes u (a value of an earlier iteration)"""
        hit = False
        for d in (self.env, self.mem):
            for k in list(d):
                if k not in d:
                    continue
                nk = subst(k, t, u) if d is self.mem else k
                v = d[k]
                nv = subst(v, t, u)
                if nk != k:
                    del d[k]
                    if nk in d and d[nk] != nv:
                        # two different objects of earlier iterations
                        del d[nk]
                    else:
                        d[nk] = nv
                    hit = True
                elif nv != v:
                    d[k] = nv
                    hit = True
        for k in list(self.facts):
            nk = subst(k, t, u)
            if nk != k:
                v = self.facts.pop(k)
                self.facts[nk] = join(v, self.facts[nk]) if nk in self.facts else v
        return hit


class Client:
    """what a rule tracks; the defaults do nothing"""
    def __init__(self, X):
        self.X = X

    def init(self, s):
        return None

    def key(self, s):
        return s.prop

    def merge(self, s, t):
        """property part of two states with the same key"""
        return s.prop

    def call(self, s, i, c):
        """None: default treatment; otherwise the list of successor states (property handled)"""
        return None

    def after(self, s, i, c):
        pass

    def access(self, s, i, sym, mode):
        """pointer sym is dereferenced by instruction i"""

    def store(self, s, i, root, off, val):
        pass

    def loaded(self, s, i, root, off):
        """a known place was read"""

    def ret(self, s, i, val):
        pass

    def rebind(self, s, t, u):
        """symbol t of an earlier iteration is now called u"""

    def dead(self, s):
        return False

    def keepcell(self, v):
        """a cell that holds v stays known although its address is forgotten"""
        return False

    def same(self, s, a, b):
        """the two values are known to be equal"""
        return False

    def distinct(self, s, a, b):
        """two different symbols are known to be different pointers"""
        return False


class Explorer:
    MAXSTATES = 400
    debug = False
    nowrap = False      # a product of a count that is not zero and a size is not zero

    def __init__(self, f, contracts=None):
        self.f, self.P = f, f.P
        self.E = memory.effects(f.P)
        self.M = memory.Mem(f)
        self.dom = f.dom()
        self.live = self.liveness()
        self.heads = {b.id for b in f.rblocks if any(self.dom.dominates(b, p) for p in b.upreds)}
        self.steps = 0
        self.maxsteps = 40000
        self.isaddr = {}

    # ------------------------------------------------------------------ liveness of SSA values
    def liveness(self):
        f = self.f
        use, dfn, phiuse = {}, {}, {}
        for b in f.rblocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op == "dbg":
                    continue
                if i.op == "phi":
                    for p, v in i.inc:
                        if isinstance(v, Inst):
                            phiuse.setdefault(p.id, set()).add(v.id)
                else:
                    for a in i.args:
                        if isinstance(a, Inst) and a.id not in d:
                            u.add(a.id)
                    if i.op == "call" and isinstance(i.fp, Inst) and i.fp.id not in d:
                        u.add(i.fp.id)
                    if i.op == "getelementptr":
                        for v, _ in i.vars:
                            if isinstance(v, Inst) and v.id not in d:
                                u.add(v.id)
                d.add(i.id)
            use[b.id], dfn[b.id] = u, d
        inn = {b.id: set(use[b.id]) for b in f.rblocks}
        ch = True
        rb = list(reversed(self.dom.rpo))
        while ch:
            ch = False
            for b in rb:
                out = set(phiuse.get(b.id, ()))
                for s in b.succs:
                    out |= inn[s.id]
                n = use[b.id] | (out - dfn[b.id])
                if len(n) != len(inn[b.id]):
                    inn[b.id] = n
                    ch = True
        return inn

    # ------------------------------------------------------------------ symbols
    def sym(self, s, v):
        if isinstance(v, Const):
            if v.k == "int":
                return ("c", v.v)
            if v.k == "null":
                return ("c", 0)
            if v.k == "gv":
                return ("g", v.n) if not v.o else ("+", ("g", v.n), v.o)
            if v.k == "fn":
                return ("g", v.n)
            if v.k == "zero":
                return ("c", 0)
            return ("k", v.k, str(v.raw.get("s", "")))
        if isinstance(v, Arg):
            return ("a", v.i)
        return s.env.get(v.id, ("v", v.id))

    @staticmethod
    def mentions_(x, t):
        return mentions(x, t)

    def plus(self, b, off):
        if off == 0:
            return b
        if b[0] == "+":
            n = b[2] + off
            return b[1] if n == 0 else ("+", b[1], n)
        return ("+", b, off)

    def base(self, p):
        """(root symbol, constant offset or None)"""
        off = 0
        while p[0] in ("+", "i"):
            if p[0] == "i":
                off = None
            elif off is not None:
                off += p[2]
            p = p[1]
        return p, off

    def fact(self, s, x):
        if x[0] == "c":
            return (x[1], x[1], frozenset())
        if x[0] in ("g", "+", "i") or x[0] == "v" and self.isalloca(x):
            return (1, 1 << 64, frozenset())
        r = s.facts.get(x)
        if x[0] == "e":
            e = self.efact(s, x)
            r = meet(r, e) if r else e
        return r or FULL

    def isalloca(self, x):
        return self.f.byid[x[1]].op == "alloca"

    def width(self, ty):
        return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else 64

    def efact(self, s, x):
        op = x[1]
        if op == "icmp":
            t = self.truth(s, x)
            return (0, 1, frozenset()) if t is None else (t, t, frozenset())
        if op == "zext":
            a = self.fact(s, x[2])
            w = x[3]
            if w == 1:
                return meet(a, (0, 1, frozenset())) if has(a, 0) or has(a, 1) else ((1, 1, frozenset()) if has(a, -1) else (0, 1, frozenset()))
            if a[0] >= 0:
                return a if a[1] < (1 << w) else (0, (1 << w) - 1, a[2])
            return (0, (1 << w) - 1, frozenset({0}) if not has(a, 0) else frozenset())
        if op in ("sext", "trunc"):
            a = self.fact(s, x[2])
            if op == "sext":
                w = x[3]
                if w == 1:
                    return (-1, 0, frozenset())
                return meet(a, (-(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset()))
            w = x[4]
            if a[0] >= -(1 << (w - 1)) and a[1] < (1 << (w - 1)):
                return a
            if w == 1 and a[0] >= 0 and a[1] <= 1:
                return a
            return FULL
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            return self.fact(s, x[2])
        if op in ("add", "sub"):
            a, b = self.fact(s, x[2]), self.fact(s, x[3])
            if a[0] == a[1] and b[0] == b[1]:
                v = a[0] + b[0] if op == "add" else a[0] - b[0]
                return (v, v, frozenset())
            if b[0] == b[1] and op == "add" and abs(a[0]) < 1 << 40 and abs(a[1]) < 1 << 40:
                return (a[0] + b[0], a[1] + b[0], frozenset(y + b[0] for y in a[2]))
            return FULL
        if op == "mul" and self.nowrap:
            if not has(self.fact(s, x[2]), 0) or not has(self.fact(s, x[3]), 0):
                return (FULL[0], FULL[1], frozenset({0}))
            return FULL
        if op == "and":
            a, b = self.fact(s, x[2]), self.fact(s, x[3])
            if b[0] == b[1] and b[0] >= 0:
                if a[0] == a[1]:
                    return (a[0] & b[0], a[0] & b[0], frozenset())
                return (0, b[0], frozenset())
            if a == (0, 0, frozenset()) or b == (0, 0, frozenset()):
                return (0, 0, frozenset())
            if b[0] == b[1] and a[0] >= 0:
                return (0, a[1], frozenset())
            return FULL
        if op == "or":
            a, b = self.fact(s, x[2]), self.fact(s, x[3])
            if a[0] == a[1] and b[0] == b[1]:
                return (a[0] | b[0], a[0] | b[0], frozenset())
            if not has(a, 0) or not has(b, 0):
                return (FULL[0], FULL[1], frozenset({0}))
            return FULL
        if op == "select":
            c = self.fact(s, x[2])
            if c[0] == c[1]:
                return self.fact(s, x[3] if c[0] else x[4])
            return join(self.fact(s, x[3]), self.fact(s, x[4]))
        if op == "xor":
            a, b = self.fact(s, x[2]), self.fact(s, x[3])
            if a[0] == a[1] and b[0] == b[1]:
                v = a[0] ^ b[0]
                return (v & 1, v & 1, frozenset()) if x[4:] == (1,) else (v, v, frozenset())
        return FULL

    def truth(self, s, x):
        """1/0/None of an icmp symbol"""
        pred, a, b = x[2], x[3], x[4]
        if a == b:
            return 1 if pred in ("eq", "ule", "uge", "sle", "sge") else 0
        if pred in ("eq", "ne"):
            if self.client.distinct(s, a, b):
                return int(pred == "ne")
            if self.client.same(s, a, b):
                return int(pred == "eq")
        fa, fb = self.fact(s, a), self.fact(s, b)
        if pred in ("eq", "ne"):
            r = None
            if fa[0] == fa[1] and fb[0] == fb[1]:
                r = fa[0] == fb[0]
            elif fa[1] < fb[0] or fb[1] < fa[0]:
                r = False
            elif fb[0] == fb[1] and not has(fa, fb[0]) or fa[0] == fa[1] and not has(fb, fa[0]):
                r = False
            return None if r is None else int(r == (pred == "eq"))
        if pred[0] == "u" and not (fa[0] >= 0 and fb[0] >= 0):
            return None
        p = pred[1:]
        if p in ("gt", "ge"):
            fa, fb, p = fb, fa, {"gt": "lt", "ge": "le"}[p]
        if p == "lt":
            return 1 if fa[1] < fb[0] else 0 if fa[0] >= fb[1] else None
        return 1 if fa[1] <= fb[0] else 0 if fa[0] > fb[1] else None

    def setfact(self, s, x, f):
        if x[0] == "c":
            return has(f, x[1])
        g = meet(self.fact(s, x), f)
        if g[0] > g[1]:
            return False
        if x[0] in ("g", "+", "i"):
            return True
        s.facts[x] = g
        if x[0] == "e":
            if x[1] in ("zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"):
                if x[1] == "trunc":
                    a = self.fact(s, x[2])
                    w = x[4]
                    if w == 1 and not has(g, 0):
                        return self.nonzero(s, x[2])
                    if w == 1 and a[0] >= 0 and a[1] <= 1:
                        return self.setfact(s, x[2], g)
                    if not (a[0] >= -(1 << (w - 1)) and a[1] < (1 << (w - 1))):
                        return True
                if x[1] == "zext" and x[3] == 1 or x[1] == "sext" and x[3] == 1:
                    if g[0] == g[1] == 0:
                        return self.refine(s, x[2], False)
                    if not has(g, 0):
                        return self.refine(s, x[2], True)
                    return True
                if x[1] == "zext" and self.fact(s, x[2])[0] < 0:
                    if g[0] == g[1] == 0:
                        return self.setfact(s, x[2], (0, 0, frozenset()))
                    if not has(g, 0):
                        return self.nonzero(s, x[2])
                    return True
                return self.setfact(s, x[2], g)
            if x[1] == "add" and x[3][0] == "c" and abs(g[0]) < 1 << 62 and abs(g[1]) < 1 << 62:
                k = x[3][1]
                return self.setfact(s, x[2], (g[0] - k, g[1] - k, frozenset(y - k for y in g[2])))
            if x[1] == "icmp" and g[0] == g[1]:
                return self.refine(s, x, bool(g[0]))
            if x[1] == "and" and x[3][0] == "c":
                a = self.fact(s, x[2])
                if a[1] - a[0] <= 64:
                    # few values: keep those that agree
                    vs = [y for y in range(a[0], a[1] + 1) if has(a, y) and has(g, y & x[3][1])]
                    return bool(vs) and self.setfact(s, x[2], (vs[0], vs[-1], frozenset(y for y in range(vs[0], vs[-1]) if y not in vs)))
            if x[1] == "or" and g[0] == g[1] == 0:
                return self.setfact(s, x[2], g) and self.setfact(s, x[3], g)
            if x[1] == "select":
                fa, fb = meet(self.fact(s, x[3]), g), meet(self.fact(s, x[4]), g)
                if fa[0] > fa[1] and fb[0] > fb[1]:
                    return False
                if fa[0] > fa[1]:
                    return self.refine(s, x[2], False) and self.setfact(s, x[4], g)
                if fb[0] > fb[1]:
                    return self.refine(s, x[2], True) and self.setfact(s, x[3], g)
        return True

    def nonzero(self, s, x):
        return self.setfact(s, x, (FULL[0], FULL[1], frozenset({0})))

    def refine(self, s, x, t):
        """assume the i1 symbol x is t; False when that is impossible"""
        if x[0] == "c":
            return bool(x[1] & 1) == t
        if x[0] == "e":
            op = x[1]
            if op == "icmp":
                tr = self.truth(s, x)
                if tr is not None:
                    return bool(tr) == t
                pred = x[2] if t else NEG[x[2]]
                return self.assume(s, pred, x[3], x[4])
            if op == "xor" and x[3] in (("c", 1), ("c", -1)):
                return self.refine(s, x[2], not t)
            if op == "and" and t or op == "or" and not t:
                return self.refine(s, x[2], t) and self.refine(s, x[3], t)
            if op in ("and", "or"):
                fa, fb = self.fact(s, x[2]), self.fact(s, x[3])
                k = 1 if op == "and" else 0
                if fa[0] == fa[1] and (fa[0] & 1) == k:
                    return self.refine(s, x[3], t)
                if fb[0] == fb[1] and (fb[0] & 1) == k:
                    return self.refine(s, x[2], t)
                return True
            if op == "select":
                c, a, b = x[2:5]
                if b[0] == "c" and bool(b[1] & 1) != t:
                    return self.refine(s, c, True) and self.refine(s, a, t)
                if a[0] == "c" and bool(a[1] & 1) != t:
                    return self.refine(s, c, False) and self.refine(s, b, t)
                return True
        f = self.fact(s, x)
        if f[0] == f[1]:
            return bool(f[0] & 1) == t
        if x[0] == "e" and x[1] in ("trunc", "bitcast", "freeze"):
            return self.setfact(s, x, (1, 1, frozenset()) if t else (0, 0, frozenset()))
        if x[0] not in ("g", "+", "i"):
            s.facts[x] = (1, 1, frozenset()) if t else (0, 0, frozenset())
        return True

    def assume(self, s, pred, a, b):
        fa, fb = self.fact(s, a), self.fact(s, b)
        if pred == "eq":
            # equal pointers / values share what is known
            if not (self.setfact(s, a, fb) and self.setfact(s, b, fa)):
                return False
            for x, y in ((a, b), (b, a)):
                if x[0] in ("v", "j", "o") and y[0] == "g":
                    s.rename(x, y)
                    self.client.rebind(s, x, y)
            return True
        if pred == "ne":
            if fb[0] == fb[1] and not self.setfact(s, a, (FULL[0], FULL[1], frozenset({fb[0]}))):
                return False
            if fa[0] == fa[1] and not self.setfact(s, b, (FULL[0], FULL[1], frozenset({fa[0]}))):
                return False
            return True
        if pred[0] == "u":
            if fb[0] == fb[1] and fb[0] >= 0 and pred in ("ult", "ule") and fa[0] < 0:
                hi = fb[0] - (1 if pred == "ult" else 0)
                return self.setfact(s, a, (0, hi, frozenset()))
            if pred in ("ugt",) and fb == (0, 0, frozenset()):
                return self.nonzero(s, a)
            if not (fa[0] >= 0 and fb[0] >= 0):
                return True
        p = pred[1:]
        if p in ("gt", "ge"):
            a, b, fa, fb, p = b, a, fb, fa, {"gt": "lt", "ge": "le"}[p]
        d = 1 if p == "lt" else 0
        return (self.setfact(s, a, (FULL[0], fb[1] - d, frozenset())) and
                self.setfact(s, b, (fa[0] + d, FULL[1], frozenset())))

    def evalop(self, s, i):
        op = i.op
        if op == "getelementptr":
            b = self.sym(s, i.base)
            b = self.plus(b, i.off)
            if i.vars:
                return ("i", b, i.id) if b[0] != "i" else b
            return b
        if op == "icmp":
            a, b = self.sym(s, i.args[0]), self.sym(s, i.args[1])
            pred = i.pred
            if a[0] == "c" and b[0] != "c":
                a, b, pred = b, a, SWAP[pred]
            # pointers into one object differ from null
            x = ("e", "icmp", pred, a, b)
            t = self.truth(s, x)
            return x if t is None else ("c", t)
        if op in ("zext", "sext", "trunc"):
            a = self.sym(s, i.args[0])
            fw = self.width(i.d.get("fty", "i64"))
            tw = self.width(i.ty)
            if a[0] == "c":
                v = a[1]
                if op == "zext":
                    v &= (1 << fw) - 1
                elif op == "sext" and fw == 1:
                    v = -(v & 1)
                elif op == "trunc":
                    v &= (1 << tw) - 1
                    if tw > 1 and v >> (tw - 1):
                        v -= 1 << tw
                return ("c", v)
            return ("e", op, a, fw, tw)
        if op in ("bitcast", "freeze"):
            return self.sym(s, i.args[0])
        if op == "ptrtoint" or op == "inttoptr":
            return ("e", op, self.sym(s, i.args[0]))
        x = ("e", op) + tuple(self.sym(s, a) for a in i.args)
        if op == "sub" and x[3][0] == "c":
            op, x = "add", ("e", "add", x[2], ("c", -x[3][1]))
        if op == "add" and x[3][0] == "c":
            a, k = x[2], x[3][1]
            if a[0] == "e" and a[1] == "add" and a[3][0] == "c":
                a, k = a[2], k + a[3][1]
            if k == 0:
                return a
            x = ("e", "add", a, ("c", k))
        if op == "xor" and i.ty == "i1":
            x += (1,)
        if depth(x) > 6:
            return ("v", i.id)
        f = self.efact(s, x)
        if f[0] == f[1]:
            return ("c", f[0])
        if op == "add" and i.d.get("nsw") and f[0] < 0 and len(x) == 4 and self.fact(s, x[2])[0] >= 0 and self.fact(s, x[3])[0] >= 0:
            # signed overflow does not happen
            s.facts[x] = meet(self.fact(s, x), (0, FULL[1], frozenset()))
        if op == "select":
            c = self.fact(s, x[2])
            if c[0] == c[1]:
                return x[3] if c[0] else x[4]
        return x

    # ------------------------------------------------------------------ memory
    def noalias(self, s, r1, r2):
        if r1 == r2:
            return False
        k1, k2 = self.objkind(r1), self.objkind(r2)
        if k1 == "alloca" and r2[0] in ("j", "o", "e") and self.mixed(r1) or \
                k2 == "alloca" and r1[0] in ("j", "o", "e") and self.mixed(r2):
            return False
        if k1 == "alloca" and (k2 != "unknown" or not self.M.escaped(r1)):
            return True
        if k2 == "alloca" and (k1 != "unknown" or not self.M.escaped(r2)):
            return True
        if k1 == "g" and (k2 == "g" or self.private(r1)) or k2 == "g" and self.private(r2):
            return True
        if k1 == "heap" and k2 in ("heap", "arg", "g") or k2 == "heap" and k1 in ("arg", "g"):
            return True
        if k1 == "arg" and k2 == "arg":
            return True
        return False

    def private(self, r):
        """a global that is only ever loaded and stored by name: no pointer designates it"""
        return r[0] == "g" and bool(self.P.globals.get(r[1], {}).get("private"))

    def mixed(self, r):
        """the address of this local object is merged with other pointers"""
        x = self.isaddr.get(r[1])
        if x is None:
            x = False
            todo, seen = [self.f.byid[r[1]]], set()
            while todo and not x:
                v = todo.pop()
                if v.id in seen:
                    continue
                seen.add(v.id)
                for u in v.uses:
                    if u.op in ("phi", "select"):
                        x = True
                    elif u.op in ("getelementptr", "bitcast"):
                        todo.append(u)
            self.isaddr[r[1]] = x
        return x

    def objkind(self, r):
        if r[0] == "g":
            return "g"
        if r[0] == "a":
            return "arg"
        if r[0] == "v":
            i = self.f.byid[r[1]]
            if i.op == "alloca":
                return "alloca"
            if self.M.is_heap(r):
                return "heap"
        if r[0] == "T" or r[0] == "o" and isinstance(r[1], int) and self.M.is_heap(("v", r[1])):
            return "heap"
        return "unknown"

    def kill(self, s, root, off, size, fld):
        for k in list(s.mem):
            r, o, z, fl = k
            if r == root:
                if off is None:
                    if fl and fld and fl != fld:
                        continue
                    del s.mem[k]
                elif not (o + z <= off or off + size <= o):
                    del s.mem[k]
            elif self.noalias(s, r, root):
                continue
            elif fl or fld:
                if fl == fld:
                    del s.mem[k]
            else:
                del s.mem[k]

    def callkills(self, s, i, c):
        g = self.P.funcs.get(c)
        defd = g is not None and not g.decl and not g.skipped
        for k in list(s.mem):
            r, o, z, fl = k
            dead = False
            hit = False
            for n, a in enumerate(i.args):
                if isinstance(a, Const) and a.k != "gv" or not isinstance(a, Const) and a.ty != "ptr":
                    continue
                ar, ao = self.base(self.sym(s, a))
                if ar != r:
                    # a merged pointer may designate this object
                    if ar[0] in ("j", "o") and fl is None and not self.noalias(s, r, ar) and self.E.call_writes(i, n):
                        dead = True
                    continue
                hit = True
                if self.E.call_writes(i, n):
                    if c.startswith(("llvm.mem", "mem")) and isinstance(i.args[2], Const) and ao is not None:
                        if o + z <= ao or ao + i.args[2].v <= o:
                            continue
                    if fl and defd and not self.E.kills_field(i, fl):
                        continue
                    fl2 = model.fields(self.P, a) if isinstance(a, Inst) else None
                    if fl2 and fl and fl2 != fl:
                        continue
                    dead = True
            if not dead and not hit:
                if self.objkind(r) == "alloca" and not self.M.escaped(r):
                    continue
                if r[0] == "g":
                    dead = ("g", r[1]) in self.E.m.get(c, ())
                elif fl:
                    dead = self.E.kills_field(i, fl)
                elif c == "indirect":
                    dead = True
            if dead:
                del s.mem[k]

    # ------------------------------------------------------------------ exploration
    def define(self, s, cl, i, v=None):
        """i is executed (again): older mentions of its value belong to the past"""
        t = ("v", i.id)
        if any(mentions(x, t) for x in s.env.values()) or any(mentions(k, t) or mentions(v2, t) for k, v2 in s.mem.items()) \
                or any(mentions(k, t) for k in s.facts):
            u = ("o", i.id)
            s.rename(t, u)
            cl.rebind(s, t, u)
        s.facts.pop(t, None)
        s.env[i.id] = v if v is not None else t

    def run(self, client):
        self.client = cl = client
        s = State()
        s.prop = cl.init(s)
        b0 = self.f.blocks[0]
        self.states = {}
        self.njoin = {}
        work = [(b0.id, cl.key(s))]
        self.states[work[0]] = s
        num = self.dom.num
        inq = set(work)
        self.steps = 0
        while work:
            work.sort(key=lambda k: -num[k[0]])
            k = work.pop()
            inq.discard(k)
            self.steps += 1
            if self.steps > self.maxsteps:
                raise TooBig(self.f.name)
            for (nb, ns) in self.block(self.f.blocks[k[0]], State(self.states[k])):
                kk = (nb.id, cl.key(ns))
                old = self.states.get(kk)
                if old is None:
                    self.states[kk] = ns
                    ch = True
                else:
                    ch = self.merge(nb, kk, old, ns)
                if ch and kk not in inq:
                    inq.add(kk)
                    work.append(kk)

    def block(self, b, s):
        cl = self.client
        todo = [(s, 0)]
        out = []
        n = len(b.insts)
        while todo:
            s, k = todo.pop()
            alive = True
            while k < n:
                i = b.insts[k]
                k += 1
                op = i.op
                if op in ("phi", "dbg", "alloca"):
                    continue
                if op == "call":
                    c = model.callee(i) or ""
                    if c.startswith("llvm.") and not c.startswith("llvm.mem"):
                        continue
                    r = cl.call(s, i, c)
                    if r is None:
                        self.default_call(s, i, c)
                        cl.after(s, i, c)
                        if c in NORETURN:
                            alive = False
                            break
                        continue
                    todo.extend((x, k) for x in r[1:])
                    if not r:
                        alive = False
                        break
                    s = r[0]
                    if cl.dead(s):
                        alive = False
                        break
                    continue
                if op == "load":
                    self.do_load(s, i)
                elif op == "store":
                    self.do_store(s, i)
                elif op == "ret":
                    cl.ret(s, i, self.sym(s, i.args[0]) if i.args else None)
                    alive = False
                    break
                elif op == "unreachable":
                    alive = False
                    break
                elif op in ("br", "switch"):
                    self.branch(s, b, i, out)
                    alive = False
                    break
                elif op in PURE or op == "getelementptr":
                    v = self.evalop(s, i)
                    if v == ("v", i.id):
                        self.define(s, cl, i)
                    else:
                        if v[0] == "i" and v[2] == i.id:
                            t = v
                            # another iteration's element
                        s.env[i.id] = v
                else:
                    self.define(s, cl, i)
                if cl.dead(s):
                    alive = False
                    break
        return out

    def do_load(self, s, i):
        cl = self.client
        p = self.sym(s, i.args[0])
        cl.access(s, i, p, "r")
        r, off = self.base(p)
        if r == ("c", 0):
            self.define(s, cl, i)
            return
        if off is not None:
            for fl in (self.fieldof(i, i.args[0]),):
                k = (r, off, i.d["sz"], fl)
                v = s.mem.get(k)
                if v is None:
                    for k2, v2 in s.mem.items():
                        if k2[:3] == k[:3]:
                            v = v2
                if v is not None:
                    s.env[i.id] = v
                    cl.loaded(s, i, r, off)
                    return
            self.define(s, cl, i)
            s.mem[k] = ("v", i.id)
            cl.loaded(s, i, r, off)
            return
        self.define(s, cl, i)

    def fieldof(self, i, p):
        fl = model.fields(self.P, p) if isinstance(p, Inst) else None
        return fl or self.M.fld(i)

    def do_store(self, s, i):
        cl = self.client
        p = self.sym(s, i.args[1])
        cl.access(s, i, p, "w")
        r, off = self.base(p)
        v = self.sym(s, i.args[0])
        fl = self.fieldof(i, i.args[1])
        cl.store(s, i, r, off, v)
        self.kill(s, r, off, i.d["sz"], fl)
        if off is not None:
            s.mem[(r, off, i.d["sz"], fl)] = v

    def default_call(self, s, i, c):
        cl = self.client
        if c.startswith(("llvm.mem", "memcpy", "memset", "memmove")):
            cl.access(s, i, self.sym(s, i.args[0]), "w")
            if "set" not in c:
                cl.access(s, i, self.sym(s, i.args[1]), "r")
            r, off = self.base(self.sym(s, i.args[0]))
            n = i.args[2]
            ln = n.v if isinstance(n, Const) else None
            if off is not None and ln is not None:
                new = {}
                if "set" not in c:
                    r2, o2 = self.base(self.sym(s, i.args[1]))
                    if o2 is not None:
                        for k, v in s.mem.items():
                            if k[0] == r2 and o2 <= k[1] and k[1] + k[2] <= o2 + ln:
                                new[(r, k[1] - o2 + off, k[2], k[3])] = v
                zero = "set" in c and isinstance(i.args[1], Const) and i.args[1].v == 0
                if zero:
                    for k in self.cells(i, r, off, ln):
                        new[k] = ("c", 0)
                fl = model.fields(self.P, i.args[0]) if isinstance(i.args[0], Inst) else None
                self.kill(s, r, off, ln, fl)
                s.mem.update(new)
            else:
                fl = model.fields(self.P, i.args[0]) if isinstance(i.args[0], Inst) else None
                if off is not None:
                    for k in list(s.mem):
                        if k[0] == r and k[1] + k[2] > off and (not fl or k[3] == fl):
                            del s.mem[k]
                else:
                    self.kill(s, r, None, 0, fl)
            if i.ty != "void":
                s.env[i.id] = self.sym(s, i.args[0])
            return
        self.callkills(s, i, c)
        if i.ty != "void":
            self.define(s, cl, i)
            if c in RETURNS_ARG:
                s.env[i.id] = self.sym(s, i.args[RETURNS_ARG[c]])

    def cells(self, i, r, off, ln):
        """member cells of a structure that is cleared as a whole"""
        n = self.E.sizes.get(ln, ())
        out = []
        if ln > 16:
            for st in n:
                for k, fd in enumerate(self.P.structs[st]["fields"]):
                    nm = self.P.field_name(st, k)
                    sz = self.M.fieldsize(nm)
                    if sz in (1, 2, 4, 8):
                        out.append((r, off + fd[0], sz, nm))
        return out

    def branch(self, s, b, i, out):
        if i.op == "br":
            if len(b.succs) == 1 or not i.args:
                self.goto(s, b, b.succs[0], out)
                return
            c = self.sym(s, i.args[0])
            for k, t in ((0, True), (1, False)):
                s2 = State(s)
                if self.refine(s2, c, t) and not self.client.dead(s2):
                    self.goto(s2, b, b.succs[k], out)
            return
        x = self.sym(s, i.args[0])
        ex = set()
        tgt = {}
        w = self.width(i.args[0].ty) if not isinstance(i.args[0], Const) else 64
        for v, sb in i.cases:
            v = int(v)
            if v >> (w - 1) & 1:
                v = (v & ((1 << w) - 1)) - (1 << w)
            ex.add(v)
            s2 = State(s)
            if self.setfact(s2, x, (v, v, frozenset())):
                self.goto(s2, b, sb, out)
        s2 = State(s)
        if self.setfact(s2, x, (FULL[0], FULL[1], frozenset(ex))):
            self.goto(s2, b, i.dflt, out)

    def goto(self, s, p, b, out):
        cl = self.client
        new = {}
        for ph in b.phis:
            for q, v in ph.inc:
                if q is p:
                    new[ph.id] = self.sym(s, v)
                    break
        for n, v in new.items():
            t = ("v", n)
            if v != t and any(mentions(x, t) for k, x in s.env.items() if k != n) or any(mentions(x, t) for x in new.values()) \
                    or any(mentions(k, t) or mentions(v2, t) for k, v2 in s.mem.items()) or any(mentions(k, t) for k in s.facts):
                if v == t:
                    continue
                u = ("o", n)
                s.rename(t, u)
                cl.rebind(s, t, u)
                new = {k: subst(x, t, u) for k, x in new.items()}
        for n, v in new.items():
            s.env[n] = v
        live = self.live[b.id]
        ph = set(new)
        for k in list(s.env):
            if k not in live and k not in ph:
                del s.env[k]
        self.gc(s, live)
        if not cl.dead(s):
            if self.debug:
                s.trace = s.trace + (b.id,)
            out.append((b, s))

    def gc(self, s, live=()):
        """forget facts about values nothing refers to any more"""
        roots = {("v", n) for n in live if n not in s.env}

        def add(x):
            if isinstance(x, tuple) and x not in roots:
                roots.add(x)
                for y in x:
                    if isinstance(y, tuple):
                        add(y)
        for v in s.env.values():
            add(v)
        ch = True
        # cells whose address is still known
        keep = {}
        todo = dict(s.mem)
        while ch:
            ch = False
            for k in list(todo):
                r = k[0]
                if r[0] in ("g", "a") or r in roots or self.client.keepcell(todo[k]) or r[0] == "v" and self.f.byid[r[1]].op == "alloca":
                    v = todo.pop(k)
                    keep[k] = v
                    add(v)
                    add(r)
                    ch = True
        s.mem = keep
        for x in list(s.facts):
            if x in roots or x[0] in ("a", "T"):
                continue
            if x[0] == "e" and any(y in roots for y in atoms(x)) and x in roots:
                continue
            if x[0] == "v":
                # facts on values that are live under their default name
                i = self.f.byid[x[1]]
                if x in roots:
                    continue
            if self.client.keepfact(x) if hasattr(self.client, "keepfact") else False:
                continue
            del s.facts[x]

    def merge(self, b, kk, old, ns):
        """join ns into old; True when old changed"""
        cl = self.client
        n = self.njoin[kk] = self.njoin.get(kk, 0) + 1
        if n > 800:
            raise TooBig("%s: no fixpoint at block %d" % (self.f.name, b.id))
        wide = n > (8 if b.id in self.heads else 60)
        ch = False
        # names of values merged here before that now mean something else
        for d, e in ((old.env, ns.env), (old.mem, ns.mem)):
            for k in d:
                x = d[k]
                if x[0] == "j" and x[1] == b.id and k in e and e[k] != x:
                    if any(mentions(v, x) for k2, v in ns.env.items() if not (d is old.env and k2 == k)) or \
                       any(mentions(v, x) or mentions(k2, x) for k2, v in ns.mem.items() if not (d is old.mem and k2 == k)) \
                       or any(mentions(f, x) for f in ns.facts):
                        u = ("o",) + x
                        ns.rename(x, u)
                        cl.rebind(ns, x, u)
        newf = {}
        bypair, used = {}, set()
        for d, e in ((old.env, ns.env), (old.mem, ns.mem)):
            for k, x in d.items():
                if x[0] == "j" and x[1] == b.id and e.get(k) == x:
                    used.add(x)
        for which, d, e in (("e", old.env, ns.env), ("m", old.mem, ns.mem)):
            for k in list(d):
                x, y = d[k], e.get(k)
                if y is None:
                    if which == "m":
                        del d[k]
                        ch = True
                        continue
                    y = ("v", k)
                if x == y:
                    continue
                # places that hold the same value on either side hold one value here
                j = bypair.get((x, y))
                if j is None:
                    if x[0] == "j" and x[1] == b.id and x not in used:
                        j = x
                    else:
                        j = ("j", b.id, which, k)
                        while j in used:
                            j = ("j", b.id, which, k, len(j))  if len(j) < 5 else ("j", b.id, which, k, j[4] + 1)
                    used.add(j)
                    bypair[(x, y)] = j
                f = join(self.fact(old, x), self.fact(ns, y))
                newf[j] = (f, x == j)
                if x != j:
                    d[k] = j
                    ch = True
        for x in list(old.facts):
            if x in newf:
                continue
            a, c = old.facts[x], self.fact(ns, x) if x[0] != "e" or x in ns.facts else (self.efact(ns, x) if x[0] == "e" else FULL)
            f = join(a, c)
            if f != a:
                ch = True
                if wide or f[:2] == FULL[:2] and not f[2]:
                    f = (FULL[0], FULL[1], f[2] & a[2])
                    if not f[2]:
                        del old.facts[x]
                        continue
                old.facts[x] = f
        for j, (f, was) in newf.items():
            a = old.facts.get(j)
            if was and a is not None:
                f = join(a, f)
            elif was:
                continue
            if f != a:
                if wide and a is not None:
                    f = (FULL[0] if f[0] < a[0] else f[0], FULL[1] if f[1] > a[1] else f[1], f[2])
                    if f == a:
                        continue
                ch = True
                if f[0] <= FULL[0] and f[1] >= FULL[1] and not f[2]:
                    old.facts.pop(j, None)
                else:
                    old.facts[j] = f
        p = cl.merge(old, ns)
        if p != old.prop:
            old.prop = p
            ch = True
        return ch

def atoms(x):
    for y in x:
        if isinstance(y, tuple):
            yield y
            yield from atoms(y)


def depth(x):
    return 1 + max((depth(y) for y in x if isinstance(y, tuple)), default=0)


NORETURN = {"exit", "abort", "_exit", "__assert_fail"}
RETURNS_ARG = {"strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "memcpy": 0, "memmove": 0, "memset": 0}
