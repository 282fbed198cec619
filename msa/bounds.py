"""Relational range analysis over SSA + versioned memory.

For a program point the analysis collects the linear constraints implied by dominating
branch conditions, value definitions (whose wrap-freedom is itself proven), loop
invariants (found by dropping non-inductive candidates) and interface contracts, and
decides a linear goal by elimination.  Joins are handled by proving the goal for every
incoming edge.  Nothing is executed."""
import time
from . import lin as LN
from . import model
from .ir import Const, Inst, Arg, fname
from .memory import Mem, width

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
PTRW = 64


def rng(view, w):
    return (0, (1 << w) - 1) if view == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


class OutOfFuel(Exception):
    """the effort allowed for one obligation is used up"""


class Ctx:
    __slots__ = ("facts", "seen", "pend", "ne", "keys", "imps", "ids", "dead", "kids", "phieq", "split", "box")

    def __init__(self, o=None):
        self.kids = {}
        self.phieq = set()
        self.split = None
        if o:
            self.facts = list(o.facts)
            self.seen = set(o.seen)
            self.pend = list(o.pend)
            self.ne = list(o.ne)
            self.keys = set(o.keys)
            self.imps = list(o.imps)
            self.ids = list(o.ids)
            self.dead = o.dead
            self.phieq = set(o.phieq)
            self.split = o.split
            self.box = dict(o.box)
        else:
            self.facts, self.seen, self.pend, self.ne, self.keys, self.imps = [], set(), [], [], set(), []
            self.ids, self.dead = [], False
            self.box = {}

    def add(self, x):
        n = LN.norm(x)
        if n is True:
            return
        if n is False:
            self.dead = True
            return
        if n in self.keys:
            return
        self.keys.add(n)
        if len(n[0]) == 1:
            # contradictory bounds of one value: no execution gets here
            (a, c), = n[0]
            lo, hi = self.box.get(a, (None, None))
            if c == 1:
                lo = -n[1] if lo is None or -n[1] > lo else lo
            elif c == -1:
                hi = n[1] if hi is None or n[1] < hi else hi
            self.box[a] = (lo, hi)
            if lo is not None and hi is not None and lo > hi:
                self.dead = True
        d = dict(n[0])
        if n[1]:
            d[None] = n[1]
        self.facts.append(d)
        self.ids.append(LN.fact(n))

    def eq(self, x):
        self.add(x)
        self.add(LN.scale(x, -1))


class Bounds:
    def __init__(self, f, contracts=None, budget=None):
        self.f = f
        self.P = f.P
        self.mem = Mem(f)
        self.dom = f.dom()
        self.loops = self.dom.loops()
        self.ctxs = {}
        self.inv = {}
        self.surv = {}
        self.rooms = {}         # loop -> candidates about what is left of a buffer
        self.deep = bool(getattr(contracts, "deep", False))
        self._iv = {}
        self.contracts = contracts
        self._busy = set()
        self.entry_facts = []
        self.n_entails = 0
        self.fuel = budget
        self._jn = {}

    # ================= nodes ==========================================
    def node(self, v):
        return self.mem.canon(v)

    def nwidth(self, n):
        if n[0] == "c":
            return n[2]
        if n[0] == "v":
            t = self.f.byid[n[1]].ty
            return width(t)
        if n[0] == "m":
            return n[1][2] * 8
        return 64

    def inst(self, n):
        if n[0] == "v":
            i = self.f.byid[n[1]]
            return i if isinstance(i, Inst) else None
        return None

    def cst(self, v):
        n = self.node(v)
        return n[1] if n[0] == "c" else None

    # ================= intervals (cheap, flow-insensitive) ==============
    def iv(self, view, n, depth=0):
        if n[0] == "c":
            v = n[1]
            if view == "u":
                v &= (1 << n[2]) - 1
            return (v, v)
        k = (view, n)
        if k in self._iv:
            return self._iv[k]
        w = self.nwidth(n)
        full = rng(view, w)
        if depth > 40:
            return full
        self._iv[k] = full      # recursion guard (sound: type range)
        i = self.inst(n)
        before = set(self._iv) if i is not None and i.op == "phi" else None
        r = self._iv_calc(view, n, w, full, depth)
        lo, hi = max(r[0], full[0]), min(r[1], full[1])
        if lo > hi:
            lo, hi = full
        if before is not None and (lo, hi) != full:
            new = set(self._iv) - before
            if any(self.inst(q[1]) is not None and self.inst(q[1]).op == "load" for q in new):
                # table entries selected with this value: look again with the smaller range
                for q in new:
                    del self._iv[q]
                self._iv[k] = (lo, hi)
                r = self._iv_calc(view, n, w, full, depth)
                lo, hi = max(r[0], lo), min(r[1], hi)
        self._iv[k] = (lo, hi)
        return self._iv[k]

    def ivv(self, view, v, depth=0):
        return self.iv(view, self.node(v), depth + 1)

    def _iv_calc(self, view, n, w, full, depth):
        i = self.inst(n)
        if n[0] == "m":
            ops = self.mem.memphi.get(n)
            if ops:
                lo, hi = None, None
                for _, o in ops:
                    if self.mem.find(o) == n:
                        continue
                    a, b = self.iv(view, self.mem.find(o), depth + 1)
                    lo = a if lo is None else min(lo, a)
                    hi = b if hi is None else max(hi, b)
                return (lo, hi) if lo is not None else full
            return full
        if i is None:
            return full
        op = i.op
        if op == "zext":
            return self.ivv("u", i.args[0], depth)
        if op == "sext":
            a, b = self.ivv("s", i.args[0], depth)
            return (a, b) if view == "s" or a >= 0 else full
        if op == "trunc":
            a, b = self.ivv("u", i.args[0], depth)
            if full[0] <= a and b <= full[1]:
                return (a, b)
            a, b = self.ivv("s", i.args[0], depth)
            return (a, b) if full[0] <= a and b <= full[1] else full
        if op == "and":
            for x in i.args:
                c = self.node(x)
                if c[0] == "c":
                    m = c[1] & ((1 << w) - 1)
                    if m <= full[1]:
                        return (0, m)
            a, b = self.ivv("u", i.args[0], depth), self.ivv("u", i.args[1], depth)
            m = min(a[1], b[1])
            return (0, m) if m <= full[1] else full
        if op in ("add", "sub", "mul", "shl"):
            a, b = self.ivv(view, i.args[0], depth), self.ivv(view, i.args[1], depth)
            if op == "add":
                r = (a[0] + b[0], a[1] + b[1])
            elif op == "sub":
                r = (a[0] - b[1], a[1] - b[0])
            elif op == "mul":
                c = [x * y for x in a for y in b]
                r = (min(c), max(c))
            else:
                if not (0 <= b[0] and b[1] < w):
                    return full
                c = [x << y for x in a for y in b]
                r = (min(c), max(c))
            if full[0] <= r[0] and r[1] <= full[1]:
                return r
            return full
        if op == "udiv" or op == "lshr":
            a, b = self.ivv("u", i.args[0], depth), self.ivv("u", i.args[1], depth)
            if op == "lshr":
                hi = a[1] >> min(b[0], w)
                return (0, hi) if hi <= full[1] else full
            hi = a[1] // max(1, b[0])
            return (0, hi) if hi <= full[1] else full
        if op == "urem":
            b = self.ivv("u", i.args[1], depth)
            a = self.ivv("u", i.args[0], depth)
            hi = min(a[1], b[1] - 1) if b[1] else full[1]
            return (0, hi) if hi <= full[1] else full
        if op in ("sdiv", "srem", "ashr"):
            a, b = self.ivv("s", i.args[0], depth), self.ivv("s", i.args[1], depth)
            if op == "srem":
                m = max(abs(b[0]), abs(b[1])) - 1
                if a[0] >= 0:
                    return (0, min(m, a[1]))
                return (-m, m) if view == "s" else full
            if op == "sdiv" and b[0] == b[1] and b[0] > 0:
                c = [int(a[0] / b[0]) if abs(a[0]) < 2 ** 52 else -(-a[0] // b[0]) if a[0] < 0 else a[0] // b[0],
                     a[1] // b[0] if a[1] >= 0 else -(-a[1] // b[0])]
                return (c[0], c[1]) if view == "s" or c[0] >= 0 else full
            if op == "ashr" and b[0] == b[1] and 0 <= b[0] < w:
                r = (a[0] >> b[0], a[1] >> b[0])
                return r if view == "s" or r[0] >= 0 else full
            return full
        if op in ("or", "xor"):
            a, b = self.ivv("u", i.args[0], depth), self.ivv("u", i.args[1], depth)
            m = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
            return (0, m) if m <= full[1] else full
        if op == "phi":
            lo = hi = None
            for _, v in i.inc:
                m = self.node(v)
                if m == n:
                    continue
                a, b = self.iv(view, m, depth + 1)
                lo = a if lo is None else min(lo, a)
                hi = b if hi is None else max(hi, b)
            return (lo, hi) if lo is not None else full
        if op == "select":
            a, b = self.ivv(view, i.args[1], depth), self.ivv(view, i.args[2], depth)
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op == "icmp":
            return (0, 1) if view == "u" else (-1, 0)
        if op == "call":
            r = self.callrange(i)
            if r and full[0] <= r[0] and r[1] <= full[1]:
                return r
            return full
        if op == "load":
            t = self.table_range(i, view)
            if t:
                return t
            return full
        return full

    def table_range(self, i, view):
        """value range of a read from a constant table (every read is shown to be inside
        the table separately)"""
        r, off, vs, fl = self.mem.ptr(i.args[0])
        if r[0] != "g":
            return None
        g = self.P.globals.get(r[1])
        if not (g and g["const"] and "init" in g):
            return None
        w = width(i.ty)
        vals = []

        def walk(c):
            if c["k"] == "int" and c["w"] == w:
                vals.append(c["v"] if view == "s" else int(c["u"]))
            elif c["k"] == "str":
                vals.extend(c["b"] if view == "u" else [x - 256 if x > 127 else x for x in c["b"]])
            elif c["k"] in ("arr", "struct"):
                for e in c["e"]:
                    walk(e)
            elif c["k"] == "zero":
                vals.append(0)
            else:
                vals.append(None)
        walk(g["init"])
        if not vals or None in vals:
            return None
        res = (min(vals), max(vals))
        k = (view, ("v", i.id))
        if g["size"] == len(vals) * (w // 8) and all(abs(sc) % (w // 8) == 0 for _, sc in vs):
            # only the entries the index can designate
            before = set(self._iv)
            self._iv[k] = res
            lo = hi = off
            for v, sc in vs:
                a, b = self.ivv("s", v)
                lo += min(a * sc, b * sc)
                hi += max(a * sc, b * sc)
            z = w // 8
            a, b = max(0, lo // z), min(len(vals) - 1, hi // z)
            if a <= b and (a > 0 or b < len(vals) - 1):
                sub = vals[a:b + 1]
                if (min(sub), max(sub)) != res:
                    res = (min(sub), max(sub))
                    for q in set(self._iv) - before:
                        del self._iv[q]
                    self._iv[k] = res
        return res

    def callrange(self, i):
        c = model.callee(i) or ""
        if c == "strlen":
            r, o, vs, fl = self.mem.ptr(i.args[0])
            if not vs and r[0] == "v" and isinstance(self.f.byid[r[1]], Inst) and self.f.byid[r[1]].op == "alloca":
                n = self.f.byid[r[1]].d["asz"]
                if 0 <= o < n and self.mem.terminated(i.b, self.mem.pos[i.id], r, n):
                    return (0, n - 1 - o)
            elif fl and not vs and (self.mem.fieldsize(fl) or 0) > 8:
                return (0, self.mem.fieldsize(fl) - 1)     # text members are terminated inside the member
            s = model.const_string(self.P, i.args[0])
            if s is not None:
                return (len(s), len(s))
        if c in ("strlen", "strspn", "strcspn", "strnlen"):
            return (0, (1 << 62) - 1)
        if c in ("tolower", "toupper", "isspace", "isdigit", "fgetc"):
            return None
        if c == "fread" or c == "fwrite":
            return None
        if c in ("snprintf", "vsnprintf"):
            n = model.format_max(self.P, i, self) if c == "snprintf" else None
            return (0, n if n is not None else (1 << 31) - 1)
        g = self.P.funcs.get(c)
        if g and not g.decl and i.ty.startswith("i"):
            return retrange(self.P, g)
        return None

    # ================= linear views ====================================
    def lin(self, view, n, ctx):
        """linear expression equal to the given view of node n; definitions whose
        wrap-freedom still has to be shown are queued in ctx.pend"""
        n = self.mem.find(n)
        if n[0] == "c":
            v = n[1]
            if view == "u":
                v &= (1 << n[2]) - 1
            return LN.const(v)
        i = self.inst(n)
        if i is not None:
            op = i.op
            if op == "zext":
                return self.lin("u", self.node(i.args[0]), ctx)
            if op == "sext":
                a = self.node(i.args[0])
                if view == "s" or self.iv("s", a)[0] >= 0:
                    return self.lin("s", a, ctx)
            if op == "trunc":
                a = self.node(i.args[0])
                w = self.nwidth(n)
                lo, hi = rng(view, w)
                for vw in ("s", "u") if view == "s" else ("u", "s"):
                    x = self.iv(vw, a)
                    if lo <= x[0] and x[1] <= hi:
                        return self.lin(vw, a, ctx)
            if op in ("add", "sub", "mul", "shl"):
                e = self.arith(view, i, ctx, quick=True)
                if e is not None:
                    return e
            if op == "or" and self.disjoint_or(i):
                e = self.arith(view, i, ctx, quick=True)
                if e is not None:
                    return e
        a = (view, n)
        self.touch(a, ctx)
        return LN.atom(a)

    def opt(self, view, n, ctx, depth=0):
        """like lin, but assuming that no arithmetic wraps: only used to guess loop
        invariants, which are then verified"""
        n = self.mem.find(n)
        i = self.inst(n)
        if i is not None and depth < 12:
            op = i.op
            if op in ("zext", "sext"):
                return self.opt("u" if op == "zext" else view, self.node(i.args[0]), ctx, depth + 1)
            if op == "trunc":
                return self.opt(view, self.node(i.args[0]), ctx, depth + 1)
            if op in ("add", "sub"):
                a, b = self.node(i.args[0]), self.node(i.args[1])
                if op == "sub":
                    pa, pb = self.inst(a), self.inst(b)
                    if pa is not None and pb is not None and pa.op == "ptrtoint" and pb.op == "ptrtoint":
                        e = self.ptrdiff(pa.args[0], pb.args[0], ctx)
                        if e is not None:
                            return e
                return LN.add(self.opt("s" if a[0] == "c" else view, a, ctx, depth + 1),
                              self.opt("s" if b[0] == "c" else view, b, ctx, depth + 1), 1 if op == "add" else -1)
            if op in ("mul", "shl") and self.node(i.args[1])[0] == "c":
                k = self.node(i.args[1])[1]
                if op == "shl":
                    if not 0 <= k < 63:
                        return self.lin(view, n, ctx)
                    k = 1 << k
                return LN.scale(self.opt(view, self.node(i.args[0]), ctx, depth + 1), k)
        return self.lin(view, n, ctx)

    def disjoint_or(self, i):
        return False

    def arith(self, view, i, ctx, quick):
        """the linear expression of an arithmetic instruction if it cannot wrap"""
        w = width(i.ty)
        lo, hi = rng(view, w)
        op = i.op
        a, b = self.node(i.args[0]), self.node(i.args[1])
        if op == "sub":
            pa, pb = self.inst(a), self.inst(b)
            if pa is not None and pb is not None and pa.op == "ptrtoint" and pb.op == "ptrtoint":
                return self.ptrdiff(pa.args[0], pb.args[0], ctx)
        if quick:
            r = self.iv_raw(view, op, a, b, w)
            ok = r is not None and lo <= r[0] and r[1] <= hi
            if not ok and i.d.get("nsw") and view == "s" and op in ("add", "sub"):
                # counters: signed overflow of an increment by a small constant is not considered
                if b[0] == "c" and abs(b[1]) <= 65536 or a[0] == "c" and abs(a[1]) <= 65536 and op == "add":
                    ok = True
            if not ok:
                return None
        if op == "add":
            return LN.add(self.lin(view, a, ctx), self.lin(view, b, ctx))
        if op == "sub":
            return LN.add(self.lin(view, a, ctx), self.lin(view, b, ctx), -1)
        if op == "mul":
            if b[0] == "c":
                k = b[1] & ((1 << w) - 1) if view == "u" else b[1]
                return LN.scale(self.lin(view, a, ctx), k)
            if a[0] == "c":
                k = a[1] & ((1 << w) - 1) if view == "u" else a[1]
                return LN.scale(self.lin(view, b, ctx), k)
            ea, eb = self.lin(view, a, ctx), self.lin(view, b, ctx)
            if LN.isconst(ea):
                return LN.scale(eb, LN.cval(ea))
            if LN.isconst(eb):
                return LN.scale(ea, LN.cval(eb))
            return None
        if op == "shl":
            if b[0] == "c" and 0 <= b[1] < w:
                return LN.scale(self.lin(view, a, ctx), 1 << b[1])
        return None

    def iv_raw(self, view, op, a, b, w):
        x, y = self.iv(view, a), self.iv(view, b)
        if op == "add":
            return (x[0] + y[0], x[1] + y[1])
        if op == "sub":
            return (x[0] - y[1], x[1] - y[0])
        if op == "mul":
            c = [p * q for p in x for q in y]
            return (min(c), max(c))
        if op == "shl":
            if not (0 <= y[0] and y[1] < w):
                return None
            c = [p << q for p in x for q in y]
            return (min(c), max(c))
        return None

    def ptrdiff(self, p, q, ctx):
        r1 = self.ptrlin(p, ctx)
        r2 = self.ptrlin(q, ctx)
        if r1 and r2 and r1[0] == r2[0]:
            return LN.add(r1[1], r2[1], -1)
        return None

    def ptrlin(self, p, ctx):
        """(root node, byte offset expression) of a pointer; loop-carried pointers whose
        every definition has the same root get an offset atom"""
        r, off, vs, fl = self.mem.ptr(p)
        e = LN.const(off)
        for v, s in vs:
            e = LN.add(e, self.lin("s", self.node(v), ctx), s)
        seen = 0
        while r[0] == "v" and seen < 20:
            seen += 1
            i = self.inst(r)
            if i is not None and i.op in ("phi", "select") and i.ty == "ptr":
                base = self.phi_root(i)
                if base is None:
                    break
                a = ("o", r)
                self.touch(a, ctx)
                e = LN.add(e, LN.atom(a))
                r = base
                break
            break
        if r[0] == "m" and r in self.mem.memphi:
            base = self.mphi_root(r)
            if base is not None:
                a = ("o", r)
                self.touch(a, ctx)
                e = LN.add(e, LN.atom(a))
                r = base
        return r, e

    def raw_root(self, v):
        return self.mem.ptr(v)[0]

    def phi_root(self, i, seen=None):
        """common root of all values flowing into a pointer phi/select, or None"""
        roots, stack, vis = set(), [("v", i.id)], set()
        while stack:
            r = stack.pop()
            if r in vis:
                continue
            vis.add(r)
            x = self.inst(r)
            if x is not None and x.op in ("phi", "select") and x.ty == "ptr":
                for a in (x.args if x.op == "phi" else x.args[1:]):
                    if isinstance(a, Const) and a.k in ("undef",):
                        continue
                    stack.append(self.mem.ptr(a)[0])
            elif r[0] == "m" and r in self.mem.memphi:
                for _, o in self.mem.memphi[r]:
                    stack.append(self.nptr(o)[0])
            else:
                roots.add(r)
            if len(roots) > 1:
                return None
        return roots.pop() if len(roots) == 1 else None

    def mphi_root(self, n):
        roots, stack, vis = set(), [n], set()
        while stack:
            r = stack.pop()
            if r in vis:
                continue
            vis.add(r)
            x = self.inst(r)
            if x is not None and x.op in ("phi", "select") and x.ty == "ptr":
                for a in (x.args if x.op == "phi" else x.args[1:]):
                    stack.append(self.mem.ptr(a)[0])
            elif r[0] == "m" and r in self.mem.memphi:
                for _, o in self.mem.memphi[r]:
                    stack.append(self.nptr(o)[0])
            else:
                roots.add(r)
            if len(roots) > 1:
                return None
        return roots.pop() if len(roots) == 1 else None

    def nptr(self, n):
        """pointer decomposition of a node"""
        n = self.mem.find(n)
        if n[0] == "v":
            i = self.f.byid[n[1]]
            if isinstance(i, Inst) and i.op == "getelementptr":
                return self.mem.ptr(i)
            return n, 0, [], None
        if n[0] == "g":
            return ("g", n[1]), n[2], [], None
        return n, 0, [], None

    def nptrlin(self, n, ctx):
        r, off, vs, fl = self.nptr(n)
        e = LN.const(off)
        for v, s in vs:
            e = LN.add(e, self.lin("s", self.node(v), ctx), s)
        i = self.inst(r)
        if i is not None and i.op in ("phi", "select") and i.ty == "ptr":
            b = self.phi_root(i)
            if b is not None:
                a = ("o", r)
                self.touch(a, ctx)
                return b, LN.add(e, LN.atom(a))
        if r[0] == "m" and r in self.mem.memphi:
            b = self.mphi_root(r)
            if b is not None:
                a = ("o", r)
                self.touch(a, ctx)
                return b, LN.add(e, LN.atom(a))
        return r, e

    def touch(self, a, ctx):
        """first use of an atom: add its range facts and queue its definition"""
        if a in ctx.seen:
            return
        ctx.seen.add(a)
        view, n = a
        if view in ("k",):
            ctx.add(LN.atom(a))
            return
        if view == "o":
            ctx.pend.append(a)
            return
        w = self.nwidth(n)
        lo, hi = self.iv(view, n)
        ctx.add(LN.add(LN.atom(a), LN.const(-lo)))
        ctx.add(LN.add(LN.scale(LN.atom(a), -1), LN.const(hi)))
        ov = "s" if view == "u" else "u"
        if (ov, n) in ctx.seen:
            self.link(n, ctx)
        ctx.pend.append(a)
        i = self.inst(n)
        if i is None:
            return
        op = i.op
        if op == "and" and view == "u":
            for x in i.args:
                e = self.lin("u", self.node(x), ctx)
                ctx.add(LN.add(e, LN.atom(a), -1))
            c = self.cst(i.args[1])
            if c is not None and c > 0 and (c & (c + 1)) == 0:
                self.quotient(i.args[0], c + 1, self.lin("u", self.node(i.args[0]), ctx), a, ctx)
        elif op == "urem" and view == "u":
            e = self.lin("u", self.node(i.args[1]), ctx)
            d = self.iv("u", self.node(i.args[1]))
            ctx.add(LN.add(LN.add(e, LN.atom(a), -1), LN.const(-1)))
            x = self.lin("u", self.node(i.args[0]), ctx)
            ctx.add(LN.add(x, LN.atom(a), -1))
            c = self.cst(i.args[1])
            if c is not None and c > 1:
                self.quotient(i.args[0], c, x, a, ctx)
        elif op in ("udiv", "lshr") and view == "u":
            b = self.node(i.args[1])
            x = self.lin("u", self.node(i.args[0]), ctx)
            if b[0] == "c" and b[1] > 0:
                c = b[1] if op == "udiv" else (1 << b[1] if b[1] < w else None)
                if c:
                    ctx.add(LN.add(x, LN.atom(a), -c))
                    ctx.add(LN.add(LN.add(LN.scale(x, -1), LN.atom(a), c), LN.const(c - 1)))
            else:
                ctx.add(LN.add(x, LN.atom(a), -1))
        elif op == "sdiv" and view == "s":
            b = self.node(i.args[1])
            x = self.node(i.args[0])
            if b[0] == "c" and b[1] > 0 and self.iv("s", x)[0] >= 0:
                e = self.lin("s", x, ctx)
                ctx.add(LN.add(e, LN.atom(a), -b[1]))
                ctx.add(LN.add(LN.add(LN.scale(e, -1), LN.atom(a), b[1]), LN.const(b[1] - 1)))
        elif op == "ashr" and view == "s":
            b = self.node(i.args[1])
            if b[0] == "c" and 0 <= b[1] < w:
                e = self.lin("s", self.node(i.args[0]), ctx)
                c = 1 << b[1]
                ctx.add(LN.add(e, LN.atom(a), -c))
                ctx.add(LN.add(LN.add(LN.scale(e, -1), LN.atom(a), c), LN.const(c - 1)))
        elif op == "trunc" and view == "u" and self.deep:
            ctx.add(LN.add(self.lin("u", self.node(i.args[0]), ctx), LN.atom(a), -1))
        elif op == "or" and view == "u":
            for x in i.args:
                ctx.add(LN.add(LN.atom(a), self.lin("u", self.node(x), ctx), -1))
            s = LN.add(self.lin("u", self.node(i.args[0]), ctx), self.lin("u", self.node(i.args[1]), ctx))
            ctx.add(LN.add(s, LN.atom(a), -1))
        elif op == "call":
            self.call_facts(i, a, ctx)

    def quotient(self, v, c, x, a, ctx):
        """x = c * q + remainder"""
        q = ("k", ("q", self.node(v), c))
        self.touch(q, ctx)
        ctx.eq(LN.add(LN.add(x, LN.atom(q), -c), LN.atom(a), -1))

    def link(self, n, ctx):
        if self.iv("s", n)[0] >= 0 or self.iv("u", n)[1] < (1 << (self.nwidth(n) - 1)):
            ctx.eq(LN.add(LN.atom(("u", n)), LN.atom(("s", n)), -1))
        else:
            ctx.pend.append(("link", n))

    def call_facts(self, i, a, ctx):
        """relations between a call's result and its arguments"""
        c = model.callee(i) or ""
        if self.contracts:
            for e in self.contracts.call_result(self, i, a, ctx):
                ctx.add(e)

    # ================= definitions proven on demand ====================
    def saturate(self, ctx, rounds=6):
        for _ in range(rounds):
            if not ctx.pend:
                return
            todo, ctx.pend = ctx.pend, []
            progress = False
            for a in todo:
                r = self.define(a, ctx)
                if r is None:
                    ctx.pend.append(a)       # keep for later
                elif r:
                    progress = True
            if not progress and all(x in todo for x in ctx.pend):
                return

    def ent(self, ctx, goal):
        self.n_entails += 1
        if self.fuel is not None:
            self.fuel -= 1
            if self.fuel < 0:
                raise OutOfFuel()
        return ctx.dead or LN.holds(ctx.ids, goal)

    def define(self, a, ctx):
        """True: a definitional equality was added; False: nothing to add; None: not yet"""
        if a[0] == "link":
            n = a[1]
            u, s = ("u", n), ("s", n)
            w = self.nwidth(n)
            if self.ent(ctx, LN.atom(s)) or self.ent(ctx, LN.add(LN.const((1 << (w - 1)) - 1), LN.atom(u), -1)):
                ctx.eq(LN.add(LN.atom(u), LN.atom(s), -1))
                return True
            return None
        view, n = a
        if view not in ("u", "s"):
            return False
        i = self.inst(n)
        if i is None:
            return False
        op = i.op
        w = self.nwidth(n)
        lo, hi = rng(view, w)
        if op in ("add", "sub", "mul", "shl"):
            e = self.arith(view, i, ctx, quick=False)
            if e is None:
                # product of two unknowns
                if op == "mul":
                    return self.mul_facts(a, i, ctx)
                return False
            full_lo = self.ent(ctx, LN.add(e, LN.const(-lo)))
            full_hi = full_lo and self.ent(ctx, LN.add(LN.const(hi), e, -1))
            if full_lo and full_hi:
                ctx.eq(LN.add(LN.atom(a), e, -1))
                return True
            return None
        if op == "sext" and view == "u":
            x = self.lin("s", self.node(i.args[0]), ctx)
            if self.ent(ctx, x):
                ctx.eq(LN.add(LN.atom(a), x, -1))
                return True
            return None
        if op == "trunc":
            for vw in (("u", "s") if view == "u" else ("s", "u")):
                x = self.lin(vw, self.node(i.args[0]), ctx)
                if self.ent(ctx, LN.add(x, LN.const(-lo))) and self.ent(ctx, LN.add(LN.const(hi), x, -1)):
                    ctx.eq(LN.add(LN.atom(a), x, -1))
                    return True
            return None
        if op == "sdiv" and view == "s":
            b = self.node(i.args[1])
            if b[0] == "c" and b[1] > 0 and self.iv("s", self.node(i.args[0]))[0] < 0:
                e = self.lin("s", self.node(i.args[0]), ctx)
                if self.ent(ctx, e):
                    ctx.add(LN.add(e, LN.atom(a), -b[1]))
                    ctx.add(LN.add(LN.add(LN.scale(e, -1), LN.atom(a), b[1]), LN.const(b[1] - 1)))
                    return True
                return None
        if op in ("srem",) and view == "s":
            return False
        return False

    def mul_facts(self, a, i, ctx):
        return False

    # ================= conditions =======================================
    def cond(self, v, truth, ctx, depth=0):
        """add the constraints implied by condition v being true/false"""
        if isinstance(v, Const):
            if v.k == "int" and bool(v.v & 1) != truth:
                ctx.add(LN.const(-1))
            return
        n = self.node(v)
        i = self.inst(n)
        if i is None:
            return
        if i.op == "xor" and self.cst(i.args[1]) in (1, -1) and i.ty == "i1":
            return self.cond(i.args[0], not truth, ctx, depth)
        if i.op == "and" and i.ty == "i1" and truth or i.op == "or" and i.ty == "i1" and not truth:
            self.cond(i.args[0], truth, ctx, depth + 1)
            self.cond(i.args[1], truth, ctx, depth + 1)
            return
        if i.op == "select" and i.ty == "i1":
            a, b = i.args[1], i.args[2]
            if isinstance(b, Const) and b.k == "int" and bool(b.v & 1) != truth:
                self.cond(i.args[0], True, ctx, depth + 1)
                self.cond(a, truth, ctx, depth + 1)
            elif isinstance(a, Const) and a.k == "int" and bool(a.v & 1) != truth:
                self.cond(i.args[0], False, ctx, depth + 1)
                self.cond(b, truth, ctx, depth + 1)
            return
        if i.op == "phi" and i.ty == "i1" and depth < 4:
            # truth is possible only through some incoming edges
            poss = [(p, x) for p, x in i.inc if not (isinstance(x, Const) and x.k == "int" and bool(x.v & 1) != truth)]
            if len(poss) == 1:
                p, x = poss[0]
                if p is not i.b and self.dom.dominates(p, i.b) or True:
                    # control came through p: its dominating facts hold
                    if i.b.id not in self.loops or not any(q.id in self.loops[i.b.id] for q in (p,)):
                        if p.id not in self._busy:
                            self.merge(ctx, self.ctx_at(p))
                        self.edge(p, i.b, ctx, depth + 1)
                        self.cond(x, truth, ctx, depth + 1)
            return
        if i.op == "trunc" and i.ty == "i1":
            src = self.node(i.args[0])
            si = self.inst(src)
            if si is not None and si.op == "zext" and si.d.get("fty") == "i1":
                return self.cond(si.args[0], truth, ctx, depth + 1)
            lo, hi = self.iv("u", src)
            if hi <= 1:
                e = self.lin("u", src, ctx)
                ctx.eq(LN.add(e, LN.const(-1 if truth else 0)))
            return
        if i.op == "zext" and i.d.get("fty") == "i1":
            return self.cond(i.args[0], truth, ctx, depth + 1)
        if i.op != "icmp":
            return
        pred = i.pred if truth else NEG[i.pred]
        a, b = i.args
        ta = a.ty if isinstance(a, (Inst, Arg)) else (b.ty if isinstance(b, (Inst, Arg)) else "i64")
        if ta == "ptr":
            self.ptrcond(pred, a, b, ctx)
            return
        na, nb = self.node(a), self.node(b)
        # (zext i1 x) ==/!= 0
        ia = self.inst(na)
        if ia is not None and ia.op in ("zext", "sext") and ia.d.get("fty") == "i1" and nb[0] == "c" and nb[1] == 0 and pred in ("eq", "ne"):
            return self.cond(ia.args[0], pred == "ne", ctx, depth + 1)
        if pred == "ne" and nb[0] == "c" and nb[1] == 0:
            self.nonzero_byte(a, ctx)
        # phi of constants compared with a constant: select the compatible edges
        self.cmp(pred, na, nb, ctx)
        if ia is not None and ia.op == "phi" and nb[0] == "c" and depth < 3:
            self.phi_const_edge(ia, pred, nb, ctx, depth)
        elif na[0] == "m" and na in self.mem.memphi and nb[0] == "c" and depth < 3:
            self.mphi_const_edge(na, pred, nb, ctx, depth)

    def array_size(self, root):
        """size of a local array of bytes"""
        i = self.inst(root) if root[0] == "v" else None
        return i.d["asz"] if i is not None and i.op == "alloca" else None

    def nonzero_byte(self, i, ctx):
        """a byte of a local array that is not NUL is not the array's terminator"""
        while isinstance(i, Inst) and i.op in ("sext", "zext"):
            i = i.args[0]
        if isinstance(i, Inst) and i.op == "and":
            i = self.classified(i)
        if not isinstance(i, Inst) or i.op != "load" or i.d["sz"] != 1:
            return
        r, e = self.ptrlin(i.args[0], ctx)
        z = self.array_size(r)
        if not z:
            return
        if self.always_zero(i.b, self.mem.pos[i.id], (r, z - 1, 1, None)):
            ctx.ne.append(LN.add(e, LN.const(1 - z)))

    def classified(self, i):
        """the byte load behind a character class test that NUL does not satisfy"""
        m = self.cst(i.args[1])
        x = i.args[0]
        while isinstance(x, Inst) and x.op in ("zext", "sext"):
            x = x.args[0]
        if m is None or m & 0x0002 or not isinstance(x, Inst) or x.op != "load":        # _IScntrl
            return None
        g = x.args[0]
        t = g.args[0] if isinstance(g, Inst) and g.op == "getelementptr" and len(g.args) == 2 else None
        if not isinstance(t, Inst) or t.op != "load" or not isinstance(t.args[0], Inst) or model.callee(t.args[0]) != "__ctype_b_loc":
            return None
        x = g.args[1]
        while isinstance(x, Inst) and x.op in ("zext", "sext"):
            x = x.args[0]
        return x

    def always_zero(self, b, idx, key):
        """on every way to this position the byte was set to 0 and only overwritten by zeros"""
        seen, todo = set(), [(b, idx)]
        while todo:
            x, n = todo.pop()
            done = False
            for k, i in reversed(self.mem._wr[x.id]):
                if k >= n:
                    continue
                e = self.mem.effect(i, key)
                if e is None:
                    continue
                if e[0] == "def" and e[1][0] == "c" and e[1][1] == 0:
                    done = True
                    break
                if i.op == "store" and isinstance(i.args[0], Const) and i.args[0].v == 0:
                    continue
                return False
            if done:
                continue
            if not x.upreds:
                return False
            for p in x.upreds:
                if p.id not in seen:
                    seen.add(p.id)
                    todo.append((p, 10 ** 9))
        return True

    def truth_of(self, pred, x, y, w):
        ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
        sx = ux - (1 << w) if ux >> (w - 1) else ux
        sy = uy - (1 << w) if uy >> (w - 1) else uy
        return {"eq": ux == uy, "ne": ux != uy, "ult": ux < uy, "ule": ux <= uy, "ugt": ux > uy, "uge": ux >= uy,
                "slt": sx < sy, "sle": sx <= sy, "sgt": sx > sy, "sge": sx >= sy}[pred]

    def phi_const_edge(self, ph, pred, nb, ctx, depth):
        if ph.b.id in self.loops:
            return
        poss = []
        for p, x in ph.inc:
            nx = self.node(x)
            if nx[0] == "c":
                if not self.truth_of(pred, nx[1], nb[1], nb[2]):
                    continue
            poss.append((p, x))
        if len(poss) == 1:
            self.via_edge(poss[0][0], ph.b, ctx, depth)
            nx = self.node(poss[0][1])
            if nx[0] != "c":
                self.cmp(pred, nx, nb, ctx)
                ctx.eq(LN.add(self.lin("s", ("v", ph.id), ctx), self.lin("s", nx, ctx), -1))

    def mphi_const_edge(self, n, pred, nb, ctx, depth):
        bid = n[2][1]
        if bid in self.loops:
            return
        poss = []
        for p, x in self.mem.memphi[n]:
            nx = self.mem.find(x)
            if nx[0] == "c" and not self.truth_of(pred, nx[1], nb[1], nb[2]):
                continue
            poss.append((p, nx))
        if len(poss) == 1:
            self.via_edge(poss[0][0], self.f.blocks[bid], ctx, depth)

    def via_edge(self, p, b, ctx, depth):
        """control reached b through p (both outside a cycle through b): p's facts hold"""
        if p.id in self._busy:
            return
        self.merge(ctx, self.ctx_at(p))
        self.edge(p, b, ctx, depth + 1)

    def merge(self, ctx, c2):
        ctx.dead = ctx.dead or c2.dead
        for fct in c2.facts:
            ctx.add(fct)
        ctx.seen |= c2.seen
        for q in c2.pend:
            if q not in ctx.pend:
                ctx.pend.append(q)
        ctx.ne += [d for d in c2.ne if d not in ctx.ne]
        ctx.imps += [d for d in c2.imps if d not in ctx.imps]

    def ptrcond(self, pred, a, b, ctx):
        if isinstance(a, Const) and a.k == "null" or isinstance(b, Const) and b.k == "null":
            return
        ra, ea = self.ptrlin(a, ctx)
        rb, eb = self.ptrlin(b, ctx)
        if ra != rb:
            return
        d = LN.add(ea, eb, -1)
        if pred == "eq":
            ctx.eq(d)
        elif pred in ("ult", "slt"):
            ctx.add(LN.add(LN.scale(d, -1), LN.const(-1)))
        elif pred in ("ule", "sle"):
            ctx.add(LN.scale(d, -1))
        elif pred in ("ugt", "sgt"):
            ctx.add(LN.add(d, LN.const(-1)))
        elif pred in ("uge", "sge"):
            ctx.add(d)
        elif pred == "ne":
            ctx.ne.append(d)

    def cmp(self, pred, na, nb, ctx):
        view = "s" if pred[0] == "s" else "u"
        if pred in ("eq", "ne"):
            if na[0] == "c" or nb[0] == "c":
                c = na if na[0] == "c" else nb
                view = "s" if c[1] < 0 else "u"
                views = ("u", "s")
            else:
                views = ("u", "s")
            if pred == "eq":
                for vw in views:
                    d = LN.add(self.lin(vw, na, ctx), self.lin(vw, nb, ctx), -1)
                    ctx.eq(d)
            else:
                for vw in views:
                    d = LN.add(self.lin(vw, na, ctx), self.lin(vw, nb, ctx), -1)
                    ctx.ne.append(d)
            return
        # use the signed view for unsigned comparisons when both are known non-negative
        d = LN.add(self.lin(view, na, ctx), self.lin(view, nb, ctx), -1)
        p = pred[1:]
        if p == "lt":
            ctx.add(LN.add(LN.scale(d, -1), LN.const(-1)))
        elif p == "le":
            ctx.add(LN.scale(d, -1))
        elif p == "gt":
            ctx.add(LN.add(d, LN.const(-1)))
        elif p == "ge":
            ctx.add(d)

    def apply_ne(self, ctx):
        for g, x in list(ctx.imps):
            if self.ent(ctx, LN.add(g, LN.const(-1))):
                ctx.imps.remove((g, x))
                self.touch_all(x, ctx)
                ctx.add(x)
        for d in list(ctx.ne):
            if LN.isconst(d):
                continue
            # d != 0 : tighten when one side is known
            if self.ent(ctx, d):
                if self.ent(ctx, LN.scale(d, -1)):
                    ctx.dead = True
                    return
                ctx.add(LN.add(d, LN.const(-1)))
                ctx.ne.remove(d)
            elif self.ent(ctx, LN.scale(d, -1)):
                ctx.add(LN.add(LN.scale(d, -1), LN.const(-1)))
                ctx.ne.remove(d)

    def edge(self, p, b, ctx, depth=0):
        """constraints of taking the edge p -> b"""
        t = p.term
        if t.op == "br" and len(p.succs) == 2 and p.succs[0] is not p.succs[1]:
            self.cond(t.args[0], p.succs[0] is b, ctx, depth)
        elif t.op == "switch":
            vals = [v for v, s in t.cases if s is b]
            n = self.node(t.args[0])
            if t.dflt is not b and vals:
                e = self.lin("s", n, ctx)
                ctx.add(LN.add(e, LN.const(-min(vals))))
                ctx.add(LN.add(LN.const(max(vals)), e, -1))
                if min(vals) >= 0:
                    e = self.lin("u", n, ctx)
                    ctx.add(LN.add(e, LN.const(-min(vals))))
                    ctx.add(LN.add(LN.const(max(vals)), e, -1))
            elif t.dflt is b and not vals:
                e = self.lin("u", n, ctx)
                for v, _ in t.cases[:32]:
                    ctx.ne.append(LN.add(e, LN.const(-(v & ((1 << self.nwidth(n)) - 1)))))

    # ================= context at a block ================================
    def ctx_at(self, b):
        c = self.ctxs.get(b.id)
        if c is not None:
            return c
        chain = []
        x = b
        while True:
            c = self.ctxs.get(x.id)
            if c is not None:
                break
            chain.append(x)
            if x is self.dom.entry:
                break
            x = self.dom.idom[x.id]
        for x in reversed(chain):
            if x is self.dom.entry:
                c = Ctx()
                if self.contracts:
                    self.contracts.entry(self, c)
            else:
                c = Ctx(self.ctxs[self.dom.idom[x.id].id])
                self._busy.add(x.id)
                # several predecessors that all come from one block on known edges
                if len(x.upreds) == 1:
                    self.edge(x.upreds[0], x, c)
                self._busy.discard(x.id)
                if x.id in self.loops:
                    self.ctxs[x.id] = c
                    self.loop_invariants(x)
                    c = Ctx(self.ctxs[self.dom.idom[x.id].id])
                    if len(x.upreds) == 1:
                        self.edge(x.upreds[0], x, c)
                    self.use_inv(x, self.inv.get(x.id, ()), c)
                self.saturate(c, 3)
                self.apply_ne(c)
            self.ctxs[x.id] = c
        return c

    def use_inv(self, H, cands, c):
        K = LN.atom(("k", H.id))
        for cand in cands:
            if isinstance(cand, tuple):
                self.touch(("k", H.id), c)
                if (K, cand[1]) not in c.imps:
                    c.imps.append((K, cand[1]))
                continue
            self.touch_all(cand, c)
            c.add(cand)

    # ================= loop invariants ===================================
    def header_phis(self, H):
        out = []
        for i in H.phis:
            out.append(("v", i.id))
        for n, ops in self.mem.memphi.items():
            if n[2] == ("phi", H.id) and n not in self.mem.subst and n[1][1] is not None:
                out.append(n)
        return out

    def incoming(self, n, p):
        """node flowing into phi node n along the edge from p"""
        if n[0] == "v":
            for q, v in self.f.byid[n[1]].inc:
                if q is p:
                    return self.node(v), v
        else:
            for q, o in self.mem.memphi[n]:
                if q is p:
                    return self.mem.find(o), None
        return None, None

    def is_ptr(self, n):
        if n[0] == "v":
            return self.f.byid[n[1]].ty == "ptr"
        return False

    def invariant_in(self, n, H):
        """node's value cannot change within the loop with header H"""
        body = self.loops[H.id]
        if n[0] in ("c", "g", "fn", "k"):
            return True
        if n[0] == "v":
            i = self.f.byid[n[1]]
            return isinstance(i, Arg) or i.b.id not in body
        if n[0] == "m":
            v = n[2]
            if v[0] in ("entry", "undef"):
                return True
            if v[0] == "phi":
                return v[1] not in body
            if v[0] == "k":
                return self.f.byid[v[1]].b.id not in body
        return False

    def lin_in(self, view, n, p, ctx):
        """view of the value flowing into header phi n along p, as expression"""
        m, v = self.incoming(n, p)
        if m is None:
            return None
        if view == "o":
            if v is not None:
                r, e = self.ptrlin(v, ctx)
            else:
                r, e = self.nptrlin(m, ctx)
            return e
        return self.lin(view, m, ctx)

    def loop_invariants(self, H):
        body = self.loops[H.id]
        entries = [p for p in H.upreds if p.id not in body]
        latches = [p for p in H.upreds if p.id in body]
        for bid in body:
            for i in self.f.blocks[bid].insts:
                if i.op == "load":
                    self.node(i)
        phis = self.header_phis(H)
        K = ("k", H.id)
        base_ctx = self.ctxs[H.id]
        cands = []
        views = {}
        root_of = {}
        if H.id in self.surv:
            # re-analysis under fewer outer facts: only what held before can still hold
            return self.houdini(H, self.surv[H.id], entries, latches, K)
        for h in list(self.surv):
            if h in body and h != H.id:
                del self.surv[h]
        if len(entries) >= 1:
            for n in phis:
                if self.is_ptr(n) or (n[0] == "m" and self.mphi_root(n) is not None and n[1][2] == 8 and self.ptrish(n)):
                    root = self.phi_root(self.f.byid[n[1]]) if n[0] == "v" else self.mphi_root(n)
                    if root is None:
                        continue
                    vs = ["o"]
                    root_of[n] = root
                else:
                    if n[0] == "m" and self.overwritten(n, H):
                        continue
                    ty = self.f.byid[n[1]].ty if n[0] == "v" else "i%d" % (n[1][2] * 8)
                    if not (ty.startswith("i") and ty[1:].isdigit()) or ty == "i1":
                        continue
                    vs = ["u", "s"]
                views[n] = vs
        tmp = Ctx(base_ctx)
        ent1 = entries[0] if len(entries) == 1 else None
        # values flowing in on the entry edge and along latches
        small = set()
        for bid in body:
            for i in self.f.blocks[bid].insts:
                if i.op == "add" and self.cst(i.args[1]) is not None and 0 < self.cst(i.args[1]) <= 16:
                    small.add(self.cst(i.args[1]))
                elif i.op == "icmp" and self.cst(i.args[1]) is not None and 1 < self.cst(i.args[1]) <= 16:
                    small.add(self.cst(i.args[1]))
        lat_atoms = {}
        steps = {}
        for n, vs in views.items():
            for vw in vs:
                a = (vw, n)
                self.touch(a, tmp)
                A = LN.atom(a)
                if ent1 is not None:
                    e = self.lin_in(vw, n, ent1, tmp)
                    if e is not None and all(self.inv_atom(x, H) for x in LN.atoms(e)):
                        cands.append(LN.add(A, e, -1))
                        cands.append(LN.add(e, A, -1))
                        if vw != "o":
                            pass
                        for q in latches:
                            l = self.lin_in(vw, n, q, tmp)
                            if l is None:
                                continue
                            d = self.resolve_step(l, a, tmp)
                            if d is None and vw != "s":
                                # bounded growth per iteration
                                for m in sorted(small):
                                    cands.append(LN.add(LN.add(e, A, -1), LN.atom(K), m))
                            if d is not None and d != 0:
                                steps.setdefault(a, set()).add(d)
                                x = LN.add(LN.add(A, e, -1), LN.atom(K), -d)
                                cands.append(x)
                                cands.append(LN.scale(x, -1))
                cands.append(dict(A))
                if vw != "o":
                    cands.append(LN.add(A, LN.const(-1)))
                else:
                    z = self.array_size(root_of[n])
                    if z:
                        cands.append(LN.add(LN.const(z - 1), A, -1))
                for q in latches:
                    m, _ = self.incoming(n, q)
                    if m is not None and vw != "o":
                        lat_atoms[(vw, m)] = A
                        for y in self.merged_phis(m, body):
                            lat_atoms.setdefault((vw, y), A)
                        l = self.lin(vw, m, tmp)
                        if len(LN.atoms(l)) == 1 and not LN.isconst(l):
                            x = LN.atoms(l)[0]
                            if l[x] == 1 and x != a:
                                lat_atoms.setdefault(x, LN.add(A, LN.const(-LN.cval(l))))
        # values that start equal and may stay equal
        if ent1 is not None:
            first = {}
            for n, vs in views.items():
                m, _ = self.incoming(n, ent1)
                if m is None or m[0] == "c" or vs == ["o"]:
                    continue
                o = first.setdefault(m, n)
                if o != n and self.nwidth(o) == self.nwidth(n):
                    for vw in vs:
                        x = LN.add(LN.atom((vw, n)), LN.atom((vw, o)), -1)
                        cands.append(x)
                        cands.append(LN.scale(x, -1))
        # two values that move by the same loop-invariant amount: their sum or difference is constant
        if ent1 is not None:
            self.conserved(H, views, ent1, latches, tmp, cands)
        # comparisons inside the loop
        nc = 0
        room = []
        for bid in body:
            for i in self.f.blocks[bid].insts:
                if not self.deep or i.op != "icmp":
                    continue
                # what is left between two positions, however it is compared
                lf = list(dict.fromkeys(y for x in i.args for y in self.leaves(x, 4, H, views)))
                pos = [y for y in lf if y in views]
                lim = [y for y in lf if y not in views and self.invariant_in(y, H)]
                for y in pos[:2]:
                    for z in lim[:3]:
                        room.append(LN.add(self.lin("u", z, tmp), LN.atom(("u", y)), -1))
                        room.append(LN.atom(("s", y)))
        for bid in sorted(body):
            for i in self.f.blocks[bid].insts:
                if i.op != "icmp" or nc > 60:
                    continue
                ty = i.args[0].ty if isinstance(i.args[0], (Inst, Arg)) else (i.args[1].ty if isinstance(i.args[1], (Inst, Arg)) else "i64")
                ds = []
                if ty == "ptr":
                    if any(isinstance(x, Const) for x in i.args):
                        continue
                    r1, e1 = self.ptrlin(i.args[0], tmp)
                    r2, e2 = self.ptrlin(i.args[1], tmp)
                    if r1 == r2:
                        ds.append(LN.add(e1, e2, -1))
                else:
                    for vw in (("u", "s") if i.pred in ("eq", "ne") else (("s",) if i.pred[0] == "s" else ("u",))):
                        ds.append(LN.add(self.lin(vw, self.node(i.args[0]), tmp), self.lin(vw, self.node(i.args[1]), tmp), -1))
                        o = LN.add(self.opt(vw, self.node(i.args[0]), tmp), self.opt(vw, self.node(i.args[1]), tmp), -1)
                        if o != ds[-1]:
                            ds.append(o)
                        if vw == "u" and any(isinstance(x, Inst) and x.op == "sext" for x in i.args):
                            o = [self.node(x.args[0] if isinstance(x, Inst) and x.op == "sext" else x) for x in i.args]
                            ds.append(LN.add(self.lin("s", o[0], tmp), self.lin("s", o[1], tmp), -1))
                for d in ds:
                    e = {}
                    ok = True
                    hasphi = False
                    for x, c in d.items():
                        if x is None:
                            e = LN.add(e, LN.const(c))
                        elif x[0] in ("u", "s", "o") and x[1] in views:
                            hasphi = True
                            e = LN.add(e, LN.atom(x), c)
                        elif x in lat_atoms:
                            hasphi = True
                            e = LN.add(e, lat_atoms[x], c)
                        elif self.inv_atom(x, H):
                            e = LN.add(e, LN.atom(x), c)
                        else:
                            ok = False
                            break
                    if ok and hasphi:
                        nc += 1
                        slack = {0, -1, 1}
                        for x in LN.atoms(e):
                            for d in steps.get(x, ()):
                                slack |= {abs(d * e[x]), 2 * abs(d * e[x])}
                        for s in (1, -1):
                            for k in sorted(slack):
                                cands.append(LN.add(LN.scale(e, s), LN.const(k)))
        # a value that is only ever set to what another loop value was: the same limits
        for n, src in self.copied(H, views, latches).items():
            for m in src:
                for cd in list(cands):
                    if isinstance(cd, dict) and any(x is not None and x[1] == m for x in cd) and K not in cd:
                        cands.append({((x[0], n) if x is not None and x[1] == m else x): c for x, c in cd.items()})
        # a pointer to a field of what was written last
        for w in dict.fromkeys(y for c in room for y in LN.atoms(c) if y[0] == "u" and y[1] in views and c[y] < 0):
            for n, r in root_of.items():
                room.append(LN.add(LN.add(LN.atom(w), LN.atom(("o", n)), -1), LN.const(-2)))
                room.append(LN.atom(("o", n)))
        cands += room
        self.rooms[H.id] = {LN.norm(c) for c in room}
        for extra in getattr(self, "extra_cands", {}).get(H.id, ()):
            cands.append(extra)
        # dedupe
        uniq, seen = [], set()
        for c in cands:
            n = LN.norm(c)
            if isinstance(n, bool) or n in seen:
                continue
            seen.add(n)
            uniq.append(c)
        self.houdini(H, uniq, entries, latches, K)

    def merged_phis(self, m, body):
        """phis inside the loop whose value may reach the phi m unchanged"""
        out, todo = [], [m]
        while todo and len(out) < 12:
            i = self.inst(todo.pop())
            if i is None or i.op != "phi" or i.b.id not in body or i.b.id in self.loops:
                continue
            for a in i.args:
                n = self.node(a)
                j = self.inst(n)
                if j is not None and j.op == "phi" and n not in out and j.b.id in body and j.b.id not in self.loops:
                    out.append(n)
                    todo.append(n)
        return out

    def overwritten(self, n, H):
        """the loop stores to the memory at positions that are not constant: nothing is known afterwards"""
        body = self.loops[H.id]
        seen, todo = set(), [n]
        while todo:
            m = self.mem.find(todo.pop())
            if m in seen or m[0] != "m":
                continue
            seen.add(m)
            if m[2][0] == "k":
                i = self.f.byid[m[2][1]]
                if i.b.id in body and i.op == "store":
                    return True
            elif m[2][0] == "phi" and m[2][1] in body and m in self.mem.memphi:
                todo.extend(o for _, o in self.mem.memphi[m])
        return False

    def copied(self, H, views, latches):
        out = {}
        for n, vs in views.items():
            if vs == ["o"]:
                continue
            leaves, vis, todo = set(), set(), []
            for q in latches:
                m, _ = self.incoming(n, q)
                if m is not None:
                    todo.append(m)
            while todo:
                m = self.mem.find(todo.pop())
                if m in vis:
                    continue
                vis.add(m)
                i = self.inst(m)
                if m in views:
                    leaves.add(m)
                elif i is not None and i.op == "phi" and i.b.id in self.loops[H.id]:
                    todo.extend(self.node(x) for x in i.args)
                elif i is not None and i.op == "select":
                    todo.extend(self.node(x) for x in i.args[1:])
                elif m[0] == "m" and m in self.mem.memphi:
                    todo.extend(o for _, o in self.mem.memphi[m])
                elif i is not None and i.op in ("zext", "sext", "trunc"):
                    todo.append(self.node(i.args[0]))
            src = {m for m in leaves if m != n}
            if src:
                out[n] = src
        return out

    def conserved(self, H, views, ent, latches, tmp, cands):
        moves = []
        for n, vs in views.items():
            for vw in vs:
                a = (vw, n)
                ds = set()
                for q in latches:
                    m, v = self.incoming(n, q)
                    if m is None:
                        ds.add(None)
                        continue
                    if vw == "o":
                        l = self.lin_in(vw, n, q, tmp)
                    else:
                        l = self.opt(vw, m, tmp)
                    if l is None:
                        ds.add(None)
                        continue
                    d = LN.add(l, LN.atom(a), -1)
                    if LN.isconst(d) or not all(self.inv_atom(x, H) for x in LN.atoms(d)):
                        ds.add(None)
                        continue
                    ds.add(tuple(sorted(((x[1] if x is not None else ()), c) for x, c in d.items())))
                e = self.lin_in(vw, n, ent, tmp)
                if len(ds) == 1 and None not in ds and e is not None and all(self.inv_atom(x, H) for x in LN.atoms(e)):
                    moves.append((a, e, dict(ds.pop())))
        for i, (a, e, d) in enumerate(moves):
            for a2, e2, d2 in moves[:i]:
                if a2[1] == a[1]:
                    continue
                for sg in (1, -1):
                    if d == {k: -sg * c for k, c in d2.items()}:
                        x = LN.add(LN.add(LN.atom(a), LN.atom(a2), sg), LN.add(e, e2, sg), -1)
                        cands.append(x)
                        cands.append(LN.scale(x, -1))

    def ptrish(self, n):
        for _, o in self.mem.memphi.get(n, ()):
            o = self.mem.find(o)
            if o[0] == "v" and self.f.byid[o[1]].ty == "ptr":
                return True
            if o[0] == "g":
                return True
        return False

    def resolve_step(self, l, a, ctx):
        """constant d with l = a + d (looking through not-yet-proven additions)"""
        d = LN.add(l, LN.atom(a), -1)
        for _ in range(4):
            if LN.isconst(d):
                return LN.cval(d)
            ats = LN.atoms(d)
            rep = None
            for x in ats:
                if x[0] in ("u", "s") and d[x] == 1:
                    i = self.inst(x[1])
                    if i is not None and i.op in ("add", "sub"):
                        c = self.cst(i.args[1])
                        if c is not None:
                            if x[0] == "u" and i.op == "add" and c < 0:
                                pass
                            rep = (x, LN.add(self.lin(x[0], self.node(i.args[0]), ctx), LN.const(c if i.op == "add" else -c)))
                            break
            if rep is None:
                return None
            c = d.pop(rep[0])
            d = LN.add(d, rep[1], c)
        return None

    def inv_atom(self, x, H):
        if x[0] == "k":
            if isinstance(x[1], tuple):
                return self.invariant_in(x[1][1], H)
            return x[1] not in self.loops[H.id]
        return self.invariant_in(x[1], H)

    def drop_below(self, H):
        for bid in list(self.ctxs):
            b = self.f.blocks[bid]
            if b is not H and self.dom.dominates(H, b):
                del self.ctxs[bid]
                if bid in self.inv:
                    del self.inv[bid]

    def subst_phis(self, cand, p, K, isentry, ctx):
        out = {}
        for x, c in cand.items():
            if x is None:
                out = LN.add(out, LN.const(c))
            elif x == K:
                if not isentry:
                    out = LN.add(out, LN.add(LN.atom(K), LN.const(1)), c)
            elif x[0] in ("u", "s", "o") and self.isphi_of(x[1], p):
                e = self.lin_in(x[0], x[1], p, ctx)
                if e is None:
                    return None
                out = LN.add(out, e, c)
            else:
                out = LN.add(out, LN.atom(x), c)
        return out

    def isphi_of(self, n, p):
        H = self._H
        if n[0] == "v":
            i = self.f.byid[n[1]]
            return isinstance(i, Inst) and i.op == "phi" and i.b is H
        return n[0] == "m" and n[2] == ("phi", H.id)

    def houdini(self, H, cands, entries, latches, K):
        # base
        alive = []
        self._H = H
        ectx = []
        for p in entries:
            ctx = Ctx(self.ctx_at(p))
            self.edge(p, H, ctx)
            ectx.append((p, ctx))
        for c in cands:
            if isinstance(c, tuple):
                alive.append(c)
                continue
            ok = True
            for p, ctx in ectx:
                self._H = H
                g = self.subst_phis(c, p, K, True, ctx)
                if g is None:
                    ok = False
                    break
                self.touch_all(g, ctx)
                self.saturate(ctx, 3)
                if not self.ent(ctx, g):
                    # the start of a pointer or a count merged before the loop
                    few = K not in c and len(LN.atoms(c)) <= 2 and any(x[0] == "o" for x in LN.atoms(c))
                    room = LN.norm(c) in self.rooms.get(H.id, ())
                    if not (few or room) or not self.prove_ctx(g, p, ctx, 6 if room else 3, H):
                        ok = False
                        break
            if ok:
                alive.append(c)
            elif len(LN.atoms(c)) == 1 and LN.cval(c) == -1 and K not in c:
                alive.append(("after", c))      # holds from the second visit on
        # step
        for _ in range(12):
            if not alive:
                break
            self.inv[H.id] = alive
            hc = Ctx(self.ctxs[self.dom.idom[H.id].id])
            if len(H.upreds) == 1:
                self.edge(H.upreds[0], H, hc)
            self.use_inv(H, alive, hc)
            self.touch((K), hc)
            self.saturate(hc, 3)
            self.apply_ne(hc)
            self.ctxs[H.id] = hc
            self.drop_below(H)
            keep = []
            lctx = []
            for q in latches:
                ctx = Ctx(self.ctx_at(q))
                self.edge(q, H, ctx)
                lctx.append((q, ctx))
            for c0 in alive:
                c = c0[1] if isinstance(c0, tuple) else c0
                ok = True
                for q, ctx in lctx:
                    self._H = H
                    g = self.subst_phis(c, q, K, False, ctx)
                    if g is None:
                        ok = False
                        break
                    self.touch_all(g, ctx)
                    self.saturate(ctx, 4)
                    if not self.ent(ctx, g):
                        if not self.prove_ctx(g, q, ctx, 5 if LN.norm(c) in self.rooms.get(H.id, ()) else 2, H):
                            ok = False
                            break
                if ok:
                    keep.append(c0)
            if len(keep) == len(alive):
                break
            alive = keep
        else:
            alive = []
        self.inv[H.id] = alive
        self.surv[H.id] = alive
        self.drop_below(H)
        self._H = None

    def touch_all(self, g, ctx):
        for a in LN.atoms(g):
            self.touch(a, ctx)

    # ================= proving =========================================
    def prove(self, goal, b, depth=5, ctx=None):
        """goal >= 0 at the end of the dominating conditions of block b"""
        if ctx is None:
            ctx = Ctx(self.ctx_at(b))
        self.touch_all(goal, ctx)
        self.saturate(ctx)
        if self.ent(ctx, goal):
            return True
        self.apply_ne(ctx)
        if self.ent(ctx, goal):
            return True
        return self.prove_ctx(goal, b, ctx, depth, None)

    def join_of(self, a):
        """block whose phi defines the atom (not a loop header), or None"""
        if a[0] not in ("u", "s", "o"):
            return None
        n = a[1]
        i = self.inst(n)
        if i is not None and i.op == "phi":
            return i.b if i.b.id not in self.loops else None
        if n[0] == "m" and n in self.mem.memphi:
            bid = n[2][1]
            return self.f.blocks[bid] if bid not in self.loops else None
        return None

    def prove_ctx(self, goal, b, ctx, depth, stop, used=frozenset()):
        if depth <= 0:
            return False
        if self.deep and self.nowrap(goal, b, ctx):
            return True
        # select atoms / phi atoms connected to the goal
        rel = set(LN.atoms(goal))
        for r in range(3):
            new = set()
            for f in ctx.facts:
                fa = [x for x in f if x is not None]
                if any(x in rel for x in fa):
                    new.update(fa)
            if new <= rel:
                break
            rel |= new
        ga = LN.atoms(goal)
        # selects
        sels = []
        for a in list(ga) + [x for x in rel if x not in ga]:
            if a[0] in ("u", "s", "o"):
                i = self.inst(a[1])
                if i is not None and i.op == "select" and i.id not in used and not i.ty.startswith("<"):
                    sels.append(i)
        joins = []
        for a in list(ga) + [x for x in rel if x not in ga]:
            j = self.join_of(a)
            if j is not None and ("j", j.id) not in used and self.dom.dominates(j, b) and j not in joins:
                joins.append(j)
        if used:
            # how control got to the incoming edge may contradict what is known by now
            x = b
            while len(x.upreds) == 1 and x.upreds[0] is self.dom.idom[x.id]:
                x = x.upreds[0]
            if len(x.upreds) > 1 and x.id not in self.loops and ("j", x.id) not in used and x not in joins:
                joins = joins[:2] + [x]
        for i in sels[:2]:
            ok = True
            for t in (True, False):
                c = self.kid_select(ctx, i, t)
                self.sync(c, goal)
                if not self.ent(c, goal) and not self.prove_ctx(goal, b, c, depth - 1, stop, used | {i.id}):
                    ok = False
                    break
            if ok:
                return True
        for j in joins[:3]:
            if self.split_join(goal, b, ctx, depth, stop, used, j):
                return True
        if not used or depth >= 4:
            reln = {a[1] for a in rel if a[0] in ("u", "s")}
            for j in self.plain_joins(b, reln)[:3]:
                if ("j", j.id) not in used and j not in joins[:3]:
                    if self.split_join(goal, b, ctx, depth, stop, used, j):
                        return True
        return False

    def leaves(self, v, d, H, views):
        """the quantities a sum or difference is made of"""
        n = self.node(v)
        i = self.inst(n)
        if d and i is not None and n not in views and not self.invariant_in(n, H) and i.op in ("add", "sub", "zext", "sext", "trunc"):
            return [y for x in i.args for y in self.leaves(x, d - 1, H, views)]
        return [n] if n[0] != "c" else []

    def nowrap(self, goal, b, ctx):
        """differences whose exactness needs a case split at the place they are computed"""
        new = False
        for a in list(ctx.pend):
            i = self.inst(a[1]) if a[0] in ("u", "link") else None
            if i is None or not self.dom.dominates(i.b, b):
                continue
            link = a[0] == "link"
            if link and i.op not in ("phi", "add") or not link and (i.op != "sub" or self.cst(i.args[0]) is not None):
                continue
            base = self.ctx_at(i.b)
            k = ("nowrap", i.id, link)
            r = base.kids.get(k)
            if r is None:
                base.kids[k] = 0
                c = Ctx(base)
                if link:
                    g = LN.atom(("s", a[1]))
                else:
                    g = LN.add(self.lin("u", self.node(i.args[0]), c), self.lin("u", self.node(i.args[1]), c), -1)
                r = base.kids[k] = 1 if self.prove(g, i.b, 4, c) else 0
            if r:
                if link:
                    ctx.eq(LN.add(LN.atom(("u", a[1])), LN.atom(("s", a[1])), -1))
                else:
                    g = LN.add(self.lin("u", self.node(i.args[0]), ctx), self.lin("u", self.node(i.args[1]), ctx), -1)
                    ctx.eq(LN.add(LN.atom(a), g, -1))
                ctx.pend.remove(a)
                new = True
        if not new:
            return False
        self.touch_all(goal, ctx)
        self.saturate(ctx)
        return self.ent(ctx, goal)

    def plain_joins(self, b, relnodes):
        """dominating joins reached under different conditions on the given values"""
        out = []
        x = b
        n = 0
        while x is not self.dom.entry and n < 60:
            n += 1
            d = self.dom.idom[x.id]
            if len(x.upreds) > 1 and x.id not in self.loops and self.edge_nodes(x, d) & relnodes:
                out.append(x)
            x = d
        return out

    def edge_nodes(self, x, d):
        k = ("en", x.id)
        r = self._jn.get(k)
        if r is None:
            r = set()
            seen, todo = {x.id}, list(x.upreds)
            while todo and len(seen) < 12:
                p = todo.pop()
                if p.id in seen:
                    continue
                seen.add(p.id)
                if p.term.op == "br" and len(p.succs) == 2:
                    i = self.inst(self.node(p.term.args[0])) if isinstance(p.term.args[0], Inst) else None
                    if i is not None and i.op == "icmp":
                        for a in i.args:
                            m = self.node(a)
                            for _ in range(3):
                                r.add(m)
                                q = self.inst(m)
                                if q is None or q.op not in ("zext", "sext", "trunc", "add", "sub"):
                                    break
                                m = self.node(q.args[0])
                elif p.term.op == "switch":
                    r.add(self.node(p.term.args[0]))
                if p is not d:
                    todo.extend(p.upreds)
            r.discard(None)
            r = {m for m in r if m[0] != "c"}
            self._jn[k] = r
        return r

    def kid_select(self, ctx, i, t):
        c = ctx.kids.get((i.id, t))
        if c is None:
            c = Ctx(ctx)
            c.split = ("sel", i, t, ctx.split)
            self.cond(i.args[0], t, c)
            ctx.kids[(i.id, t)] = c
        return c

    def kid_join(self, ctx, j, p):
        c = ctx.kids.get((j.id, p.id, "j"))
        if c is None:
            c = Ctx(ctx)
            c.split = ("join", j, p, ctx.split)
            self.merge(c, self.ctx_at(p))
            self.edge(p, j, c)
            ctx.kids[(j.id, p.id, "j")] = c
        return c

    def sync(self, c, goal):
        """touch the goal's atoms and equate the merged values of every split made so far"""
        self.touch_all(goal, c)
        for _ in range(3):
            new = False
            s = c.split
            while s is not None:
                if s[0] == "sel":
                    i, t = s[1], s[2]
                    v = i.args[1] if t else i.args[2]
                    n = ("v", i.id)
                    for vw in ("u", "s", "o"):
                        if (vw, n) in c.seen and ("s", vw, i.id) not in c.phieq:
                            c.phieq.add(("s", vw, i.id))
                            e = self.ptrlin(v, c)[1] if vw == "o" else self.lin(vw, self.node(v), c)
                            c.eq(LN.add(LN.atom((vw, n)), e, -1))
                            new = True
                else:
                    j, p = s[1], s[2]
                    for n in self.join_nodes(j):
                        for vw in ("u", "s", "o"):
                            if (vw, n) in c.seen and (vw, n) not in c.phieq:
                                c.phieq.add((vw, n))
                                m, v = self.incoming(n, p)
                                if m is None:
                                    continue
                                if vw == "o":
                                    e = (self.ptrlin(v, c) if v is not None else self.nptrlin(m, c))[1]
                                else:
                                    e = self.lin(vw, m, c)
                                c.eq(LN.add(LN.atom((vw, n)), e, -1))
                                new = True
                s = s[3]
            if not new:
                break
        self.saturate(c)
        self.apply_ne(c)

    def join_nodes(self, j):
        k = len(self.mem.memphi)
        r = self._jn.get(j.id)
        if r is None or r[0] != k:
            r = (k, [("v", i.id) for i in j.phis] + [n for n in self.mem.memphi if n[2] == ("phi", j.id)])
            self._jn[j.id] = r
        return r[1]

    def split_join(self, goal, b, ctx, depth, stop, used, j):
        for p in j.upreds:
            c = self.kid_join(ctx, j, p)
            self.sync(c, goal)
            if self.ent(c, goal):
                continue
            if not self.prove_ctx(goal, p, c, depth - 1, stop, used | {("j", j.id)}):
                return False
        return True


# ---------------------------------------------------------------------------
_ret = {}


def retrange(P, g, stack=()):
    """interval of an integer function's return value (type-view 's'), from its constants"""
    k = (P.path, g.name)
    if k in _ret:
        return _ret[k]
    _ret[k] = None
    lo = hi = None
    try:
        b = Bounds(g)
        for blk in g.rblocks:
            t = blk.term
            if t.op == "ret" and t.args:
                n = b.node(t.args[0])
                r = b.iv("s", n)
                lo = r[0] if lo is None else min(lo, r[0])
                hi = r[1] if hi is None else max(hi, r[1])
    except RecursionError:
        lo = None
    _ret[k] = (lo, hi) if lo is not None else None
    return _ret[k]
