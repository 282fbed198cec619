"""Sparse conditional constant propagation over the SSA form: given some parameters bound
to constants, which blocks can execute and which values are constant.  A dataflow
analysis over the usual three-level lattice; nothing is executed."""
from .ir import Const, Inst, Arg
from . import model

TOP = "top"      # not yet known to be defined
BOT = "bottom"   # not a constant


def mask(w):
    return (1 << w) - 1


def width(t):
    return int(t[1:]) if t.startswith("i") and t[1:].isdigit() else 64


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


class SCCP:
    def __init__(self, P, f, bind, assume_loads=None):
        """bind: {arg name: int}; assume_loads: function(load inst) -> int or None"""
        self.P, self.f = P, f
        self.val = {}
        self.exec_edges = set()
        self.exec_blocks = set()
        for a in f.args:
            if a.name in bind:
                self.val[a.id] = bind[a.name] & mask(width(a.ty)) if a.ty != "ptr" else ("p", bind[a.name])
            else:
                self.val[a.id] = BOT
        self.assume_loads = assume_loads
        self.run()

    def get(self, v):
        if isinstance(v, Const):
            if v.k == "int":
                return v.v & mask(v.w)
            if v.k == "null":
                return ("p", "null")
            if v.k == "gv":
                return ("g", v.n, v.o)
            if v.k == "fn":
                return ("g", v.n, 0)
            if v.k == "undef":
                return TOP
            return BOT
        return self.val.get(v.id, TOP)

    def run(self):
        f = self.f
        flow = [(None, f.blocks[0])]
        ssa = []
        while flow or ssa:
            if flow:
                p, b = flow.pop()
                e = (p.id if p else -1, b.id)
                if e in self.exec_edges:
                    continue
                self.exec_edges.add(e)
                first = b.id not in self.exec_blocks
                self.exec_blocks.add(b.id)
                for i in (b.insts if first else b.phis):
                    self.visit(i, flow, ssa)
            else:
                i = ssa.pop()
                if i.b.id in self.exec_blocks:
                    self.visit(i, flow, ssa)

    def set(self, i, v, ssa):
        o = self.val.get(i.id, TOP)
        if o == BOT or v == TOP or o == v:
            return
        if o != TOP:
            v = BOT
        self.val[i.id] = v
        ssa.extend(i.uses)

    def visit(self, i, flow, ssa):
        op = i.op
        if op == "phi":
            r = TOP
            for b, v in i.inc:
                if (b.id, i.b.id) in self.exec_edges:
                    x = self.get(v)
                    if x == TOP:
                        continue
                    r = x if r == TOP or r == x else BOT
            self.set(i, r, ssa)
        elif op == "br":
            if len(i.b.succs) == 1:
                flow.append((i.b, i.b.succs[0]))
            else:
                c = self.get(i.args[0])
                if c == TOP:
                    return
                if c == BOT:
                    for s in i.b.succs:
                        flow.append((i.b, s))
                else:
                    flow.append((i.b, i.b.succs[0 if c & 1 else 1]))
        elif op == "switch":
            c = self.get(i.args[0])
            if c == TOP:
                return
            if c == BOT:
                for s in i.b.succs:
                    flow.append((i.b, s))
            else:
                w = width(i.args[0].ty) if isinstance(i.args[0], (Inst, Arg)) else i.args[0].w
                for v, t in i.cases:
                    if v & mask(w) == c:
                        flow.append((i.b, t))
                        break
                else:
                    flow.append((i.b, i.dflt))
        elif op in ("ret", "unreachable", "store", "dbg"):
            pass
        else:
            self.set(i, self.eval(i), ssa)

    def eval(self, i):
        if i.op in ("call", "alloca", "extractvalue", "insertvalue") or not i.args:
            return BOT
        a = [self.get(x) for x in i.args]
        op = i.op
        if op == "load":
            if self.assume_loads:
                v = self.assume_loads(i)
                if v is not None:
                    return v & mask(width(i.ty))
            if a and isinstance(a[0], tuple) and a[0][0] == "g":
                return self.load_const(a[0][1], a[0][2], i.d["sz"], i.ty)
            return BOT
        if op == "getelementptr":
            b = self.get(i.base)
            if isinstance(b, tuple) and b[0] == "g":
                off = b[2] + i.off
                for v, s in i.vars:
                    x = self.get(v)
                    if not isinstance(x, int):
                        return x
                    w = width(v.ty) if not isinstance(v, Const) else v.w
                    off += sgn(x, w) * s
                return ("g", b[1], off)
            return BOT
        if op == "select":
            if a[0] == TOP:
                return TOP
            if a[0] == BOT:
                return a[1] if a[1] == a[2] else BOT
            return a[1] if a[0] & 1 else a[2]
        if op == "icmp":
            if any(isinstance(x, tuple) for x in a):
                if TOP in a:
                    return TOP
                if all(isinstance(x, tuple) for x in a) and i.pred in ("eq", "ne"):
                    return int((a[0] == a[1]) == (i.pred == "eq"))
                return BOT
        if TOP in a:
            return TOP
        if op in ("and", "mul") and 0 in a:
            return 0
        if BOT in a or any(not isinstance(x, int) for x in a):
            return BOT
        t = i.args[0].ty if isinstance(i.args[0], (Inst, Arg)) else "i%d" % i.args[0].w
        if not (t.startswith("i") and t[1:].isdigit()):
            return BOT
        w = width(t)
        if op == "icmp":
            x, y = a
            if i.pred[0] == "s":
                x, y = sgn(x, w), sgn(y, w)
            p = i.pred[-2:]
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p])
        if op in ("zext", "trunc", "bitcast", "freeze"):
            return a[0] & mask(width(i.ty)) if i.ty.startswith("i") else BOT
        if op == "sext":
            return sgn(a[0], w) & mask(width(i.ty))
        x, y = (a + [0])[:2]
        try:
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
                 "xor": lambda: x ^ y, "shl": lambda: x << y if y < w else None, "lshr": lambda: x >> y if y < w else None,
                 "ashr": lambda: sgn(x, w) >> y if y < w else None,
                 "udiv": lambda: x // y if y else None, "urem": lambda: x % y if y else None,
                 "sdiv": lambda: int(sgn(x, w) / sgn(y, w)) if y else None,
                 "srem": lambda: sgn(x, w) - int(sgn(x, w) / sgn(y, w)) * sgn(y, w) if y else None}[op]()
        except KeyError:
            return BOT
        return BOT if r is None else r & mask(w)

    def load_const(self, name, off, sz, ty):
        g = self.P.globals.get(name)
        if not g or not g["const"] or "init" not in g:
            return BOT
        n = [0]
        hit = [BOT]

        def walk(c, ty_):
            k = c["k"]
            if k == "int":
                s = max(1, (c["w"] + 7) // 8)
                if n[0] % s:
                    n[0] += s - n[0] % s
                if n[0] == off and s == sz:
                    hit[0] = c["v"] & mask(c["w"])
                n[0] += s
            elif k == "str":
                for b in c["b"]:
                    if n[0] == off and sz == 1:
                        hit[0] = b
                    n[0] += 1
            elif k in ("gv", "null", "fn"):
                if n[0] % 8:
                    n[0] += 8 - n[0] % 8
                if n[0] == off and sz == 8:
                    hit[0] = ("g", c["n"], c.get("o", 0)) if k != "null" else ("p", "null")
                n[0] += 8
            elif k in ("arr", "struct"):
                for e in c["e"]:
                    walk(e, None)
            else:
                n[0] = -10 ** 9
        if g["init"]["k"] == "zero":
            return 0 if off + sz <= g["size"] else BOT
        walk(g["init"], None)
        return hit[0]

    # ---- queries -----------------------------------------------------
    def executable(self, i):
        return i.b.id in self.exec_blocks

    def returns(self):
        out = set()
        for b in self.f.rblocks:
            if b.id in self.exec_blocks and b.term.op == "ret" and b.term.args:
                out.add(self.get(b.term.args[0]))
        return out
