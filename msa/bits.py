"""Byte provenance: an abstract interpretation that follows, bit by bit, where every value of a function comes from - which
byte of which object, or which call or computation - under a stated case (byte order of the host and of the record, kind of
blockette, one flag bit set, ...).  Nothing is executed: values are vectors of origins, branches whose condition the case does
not settle are followed both ways and joined, and loops are iterated to a fixed point.

  value   ("b", bits)   one origin per bit, least significant first: 0, 1 or (root, byte, bit)
          ("p", root, offset)  a pointer;  ("s", {values})  one of a few;  None  undefined
  root    ("a", n) argument n, ("l", id) local variable, ("g", name) global, ("n", id) object returned by a call,
          ("*", root, offset, version) what the pointer stored there points at, ("d", root, key) a place at a computed offset,
          ("v", id) value of an instruction, ("o", callee, id, n) what a call left in its n-th argument
"""
import struct
from .ir import Const, Inst, Arg
from . import model

ALT = 6
VOIDW = 64


def width(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return {"float": 32, "double": 64, "ptr": 64, "x86_fp80": 80}.get(ty, 64)


def const(v, w):
    return ("b", tuple((v >> k) & 1 for k in range(w)))


def cval(v):
    """unsigned constant, or None"""
    if v is None or v[0] != "b":
        return None
    n = 0
    for k, b in enumerate(v[1]):
        if b == 1:
            n |= 1 << k
        elif b != 0:
            return None
    return n


def sval(v):
    n = cval(v)
    if n is not None and v[1] and v[1][-1] == 1:
        n -= 1 << len(v[1])
    return n


def atoms(root, off, n, big=False):
    """the value of n bytes of an object, read on a host of the given byte order"""
    bits = []
    for k in (range(n - 1, -1, -1) if big else range(n)):
        bits += [(root, off + k, j) for j in range(8)]
    return ("b", tuple(bits))


def kindof(i):
    """how an instruction interprets its operands"""
    return "u" if i.op == "uitofp" else "s" if i.op == "sitofp" else "f" if i.op.startswith("f") and i.op != "freeze" else "-"


def strip(root):
    """the object a place at a computed offset belongs to"""
    while root[0] == "d":
        root = root[1]
    return root


def bounds(v):
    lo = hi = 0
    for k, b in enumerate(v[1]):
        if b == 1:
            lo |= 1 << k
            hi |= 1 << k
        elif b != 0:
            hi |= 1 << k
    return lo, hi


def leaf(v):
    """what a vector designates: ('c', n) or (sign, root, offset, bytes, order) for whole bytes of one object in ascending
    ('le') or descending ('be') order; partial or mixed vectors give ('m', {(root, byte, mask)})"""
    if v is None or v[0] != "b":
        return v
    c = cval(v)
    if c is not None:
        return ("c", c)
    bits = list(v[1])
    sign = "-"
    n = len(bits)
    if n > 8 and bits[-1] == 0:
        while len(bits) > 8 and bits[-1] == 0:
            bits.pop()
        while len(bits) % 8:
            bits.append(0)
        sign = "u"
    elif n > 8 and bits[-1] == bits[-2]:
        while len(bits) > 8 and bits[-2] == bits[-1]:
            bits.pop()
        if len(bits) % 8:
            bits += [bits[-1]] * (8 - len(bits) % 8)
        sign = "s"
    by = []
    for k in range(0, len(bits), 8):
        x = bits[k:k + 8]
        if isinstance(x[0], tuple) and len(x) == 8 and all(isinstance(b, tuple) and b[:2] == x[0][:2] and b[2] == j for j, b in enumerate(x)):
            by.append(x[0][:2])
        else:
            by = None
            break
    if by and len({r for r, _ in by}) == 1:
        r, o = by[0]
        if len(by) == 1:
            return (sign, r, o, 1, "1")
        if all(by[k][1] == o + k for k in range(len(by))):
            return (sign, r, o, len(by), "le")
        if all(by[k][1] == o - k for k in range(len(by))):
            return (sign, r, by[-1][1], len(by), "be")
    m = {}
    for b in v[1]:
        if isinstance(b, tuple):
            m[b[:2]] = m.get(b[:2], 0) | 1 << b[2]
    return ("m", frozenset((r, o, k) for (r, o), k in m.items()))


class Mem:
    __slots__ = ("c", "ver")

    def __init__(self, o=None):
        self.c = {r: dict(d) for r, d in o.c.items()} if o else {}
        self.ver = dict(o.ver) if o else {}

    def same(self, o):
        return self.c == o.c and self.ver == o.ver


class Bits:
    """one function under one case.  Options: big - host byte order; bind - {argument index: value}; init(root, byte) -> 8 bits or
    None - assumed content of memory; facts(leaf) -> (low, high) or None - assumed range of a value; calls(self, inst, name, args)
    -> value or None - assumed result of a call; alt - how many offsets are told apart."""

    def __init__(self, P, f, big=False, bind=None, init=None, facts=None, calls=None, alt=ALT, nonnull=True, once=False, wr=None):
        self.wr = wr
        self.P, self.f, self.big = P, f, big
        self.bind, self.init_, self.facts_, self.calls_ = bind or {}, init, facts, calls
        self.alt, self.nonnull = alt, nonnull
        self.env = {}
        self.prov = {}          # id of an instruction whose value is opaque -> leaves it was computed from
        self.own = {}           # the same without the arguments of calls
        self.src = {}           # ("cp", id) copies: id -> (root, offset)
        self.keys = {}          # id of an instruction -> places named after it
        self.topped = set()     # joins that have been widened once stay widened
        self.edges = set()
        self.out = {}
        self.inmem = {}
        self.collect = None
        # once: only the first pass through every loop
        self.backs = {(b.id, t.id) for b in f.blocks for t in b.succs if f.dom().dominates(t, b)} if once else set()
        self.run()

    # ------------------------------------------------------------------ values
    def get(self, v):
        if isinstance(v, Const):
            if v.k == "int":
                return const(v.u if v.u >= 0 else v.v, v.w)
            if v.k == "null":
                return const(0, 64)
            if v.k == "gv":
                return ("p", ("g", v.n), v.o)
            if v.k == "fn":
                return ("p", ("g", v.n), 0)
            if v.k == "fp":
                return ("b", ((("k", str(v.raw.get("s", v.raw.get("v", "")))), 0, 0),) * 64)
            if v.k in ("undef", "poison"):
                return None
            if v.k == "zero":
                return const(0, 64)
            return ("b", ((("k", v.k, str(v.raw)), 0, 0),) * 64)
        if isinstance(v, Arg):
            if v.i in self.bind:
                return self.bind[v.i]
            if v.ty == "ptr":
                return ("p", ("a", v.i), 0)
            return atoms(("a", v.i), 0, (width(v.ty) + 7) // 8) if width(v.ty) % 8 == 0 else self.fresh(("a", v.i), width(v.ty))
        return self.env.get(v.id)

    @staticmethod
    def fresh(root, w):
        return ("b", tuple((root, k // 8, k % 8) for k in range(w)))

    def opaque(self, i, ops, kind="-", w=None):
        """value of an instruction that is not followed bit by bit"""
        for own, tab in ((False, self.prov), (True, self.own)):
            s = set(tab.get(i.id, ()))
            for o in ops:
                s |= self.leaves(o, kind, own)
            tab[i.id] = frozenset(s)
        if i.ty == "ptr":
            return ("p", ("n", i.id), 0)
        return self.fresh(("v", i.id), w or width(i.ty))

    def leaves(self, v, kind="-", own=False):
        """the leaves a value is computed from"""
        if v is None:
            return set()
        if v[0] == "s":
            r = set()
            for x in v[1]:
                r |= self.leaves(x, kind, own)
            return r
        if v[0] == "p":
            return {("p", v[1], v[2])}
        tab = self.own if own else self.prov
        l = leaf(v)
        if kind in ("u", "s") and l[0] == "-":
            l = (kind,) + l[1:]
        if l[0] == "c":
            return set()
        if l[0] == "m":
            r = set()
            for root, o, m in l[1]:
                if root[0] == "v":
                    r |= tab.get(root[1], frozenset())
                elif root[0] == "k":
                    pass
                else:
                    r.add(("m", root, o, 1, m))
            return r
        if l[1][0] == "v":
            return set(tab.get(l[1][1], ()))
        if l[1][0] == "k":
            return set()
        return {(kind if kind == "f" else l[0],) + l[1:]}

    def join(self, a, b, key):
        if a is None:
            return b
        if b is None or a == b:
            return a
        x = set(a[1]) if a[0] == "s" else {a}
        x |= set(b[1]) if b[0] == "s" else {b}
        if len(x) <= self.alt and key not in self.topped:
            return ("s", frozenset(x))
        self.topped.add(key)
        return ("top", key)

    def setjoin(self, i, vals):
        """join for an instruction result"""
        r = None
        vals = list(vals)
        if i.id in self.topped and any(v is not None for v in vals):
            if i.ty != "ptr":
                return self.opaque(i, vals)
            r = ("top", i.id)
        for v in vals:
            r = self.join(r, v, i.id) if r is None or r[0] != "top" else r
            if r is not None and r[0] == "top":
                if any(v is not None and v[0] == "p" for v in vals) or i.ty == "ptr":
                    roots = {strip(x[1]) for v in vals if v for x in (v[1] if v[0] == "s" else [v]) if x[0] == "p"}
                    if len(roots) == 1:
                        return ("p", ("d", next(iter(roots)), ("phi", i.id)), 0)
                return self.opaque(i, vals)
        return r

    def alts(self, v):
        return list(v[1]) if v is not None and v[0] == "s" else [v]

    def lift(self, i, ops, fn):
        """apply fn to every combination of alternatives"""
        combos = [()]
        for o in ops:
            combos = [c + (a,) for c in combos for a in self.alts(o)]
            if len(combos) > 36:
                return self.opaque(i, ops)
        res = []
        for c in combos:
            if any(x is None for x in c):
                continue
            r = fn(*c)
            if r is None:
                return self.opaque(i, ops, kindof(i))
            res.append(r)
        if not res:
            return None
        r = self.setjoin(i, res)
        if len(ops) == 1 and i.id in self.topped and r is not None and r[0] == "b" and ops[0][0] == "s":
            # too many alternatives: give the operand a name and keep the conversion visible
            w = max((len(x[1]) for x in self.alts(ops[0]) if x[0] == "b"), default=0)
            if w and all(x[0] == "b" for x in self.alts(ops[0])):
                k = ("op", i.id)
                self.prov[k] = self.prov.get(k, frozenset()) | self.leaves(ops[0])
                self.own[k] = self.own.get(k, frozenset()) | self.leaves(ops[0], own=True)
                q = fn(self.fresh(("v", k), w))
                if q is not None:
                    return q
        return r

    # ------------------------------------------------------------------ memory
    def initial(self, mem, root, off):
        """origin of a byte nothing has been stored to yet"""
        ver = mem.ver.get(root)
        if ver is not None:
            base = ver[1] if ver[0] == "o" else None
            if ver[0] == "o":
                b = self.init_((("o", ver[1], ver[2], ver[3])), off - ver[4]) if self.init_ is not None else None
                if b is not None:
                    return (("b", tuple(b)), 0)
                return (("b", tuple((("o", ver[1], ver[2], ver[3]), off - ver[4], j) for j in range(8))), 0)
            return (("b", tuple((("?", root, ver), off, j) for j in range(8))), 0)
        if root[0] == "l":
            return None
        if self.init_ is not None:
            b = self.init_(root, off)
            if b is not None:
                return (("b", tuple(b)), 0)
        if root[0] == "g":
            b = self.gbyte(root[1], off)
            if b is not None:
                return (const(b, 8), 0)
        return (("b", tuple((root, off, j) for j in range(8))), 0)

    def gbyte(self, n, off):
        g = self.P.globals.get(n)
        if g and g.get("const") and "init" in g and g["init"]["k"] == "str":
            b = g["init"]["b"]
            if 0 <= off < len(b):
                return b[off] & 255
        return None

    def cell(self, mem, root, off):
        c = mem.c.get(root, {}).get(off)
        return c if c is not None else self.initial(mem, root, off)

    def bytebits(self, c):
        """the eight origins of a memory cell"""
        if c is None:
            return None
        v, k = c
        if v is not None and v[0] == "b":
            b = v[1][8 * k:8 * k + 8]
            return b + (0,) * (8 - len(b))
        return None

    def load(self, mem, i, p, n):
        if p is None or p[0] != "p":
            return self.opaque(i, [p])
        root, off = p[1], p[2]
        cells = [self.cell(mem, root, off + k) for k in range(n)]
        v0 = cells[0]
        if v0 is None:
            if all(c is None for c in cells):
                return None
            return self.opaque(i, [c[0] for c in cells if c is not None])
        if v0[0] is not None and v0[0][0] != "b":
            if all(c is not None and c[0] == v0[0] and c[1] == k for k, c in enumerate(cells)):
                return v0[0]
        by = [self.bytebits(c) for c in cells]
        if any(b is None for b in by):
            # alternatives of the same shape
            al = {c[0] for c in cells if c is not None}
            if len(al) == 1 and next(iter(al))[0] == "s" and all(x is not None and x[0] == "b" for x in next(iter(al))[1]) \
                    and all(c is not None for c in cells):
                res = []
                for x in next(iter(al))[1]:
                    order = cells[::-1] if self.big else cells
                    res.append(("b", sum((self.bytebits((x, c[1])) for c in order), ())))
                return self.setjoin(i, res)
            return self.opaque(i, [c[0] for c in cells if c is not None])
        if self.big:
            by = by[::-1]
        bits = sum(by, ())
        w = width(i.ty)
        if i.ty == "ptr":
            l = leaf(("b", bits))
            if l[0] == "c":
                return const(l[1], 64)
            if l[0] == "-" and l[3] == 8:
                return ("p", ("*",) + l[1:3], 0)
            return self.opaque(i, [("b", bits)])
        return ("b", bits[:w])

    def store(self, mem, p, v, n, weak=False):
        if p is None:
            return
        root, off = p[1], p[2]
        d = mem.c.setdefault(root, {})
        for k in range(n):
            if v is not None and v[0] == "b":
                # memory order
                j = n - 1 - k if self.big else k
                b = v[1][8 * j:8 * j + 8]
                c = (("b", b + (0,) * (8 - len(b))), 0)
            elif v is not None and v[0] == "s" and all(x is not None and x[0] == "b" for x in v[1]):
                c = (v, n - 1 - k if self.big else k)
            else:
                c = (v, k)
            if weak:
                c = self.joincell(self.cell(mem, root, off + k), c, (root, off + k))
            d[off + k] = c

    def joincell(self, a, b, key):
        if a == b:
            return a
        if a is None or b is None:
            return a or b
        x, y = a[0], b[0]
        if a[1] != b[1]:
            x, y = self.sub(a), self.sub(b)
            k = 0
        else:
            k = a[1]
        j = self.join(x, y, key)
        if j is not None and j[0] == "top":
            r = ("j",) + (key if isinstance(key, tuple) else (key,))
            for own, tab in ((False, self.prov), (True, self.own)):
                s = frozenset()
                for z in (x, y):
                    s |= self.leaves(z, own=own)
                tab[r] = tab.get(r, frozenset()) | s
            return (self.fresh(("v", r), 64), k)
        return (j, k)

    def sub(self, c):
        b = self.bytebits(c)
        return ("b", b) if b is not None else c[0]

    def joinmem(self, ms, b):
        if len(ms) == 1:
            return Mem(ms[0])
        r = Mem(ms[0])
        for m in ms[1:]:
            vers = {}
            for root in set(r.ver) | set(m.ver):
                x, y = r.ver.get(root), m.ver.get(root)
                vers[root] = x if x == y else ("?", b.id)
            for root in set(r.c) | set(m.c):
                d, e = r.c.get(root, {}), m.c.get(root, {})
                if d is e or d == e and r.ver.get(root) == m.ver.get(root):
                    continue
                n = {}
                for off in set(d) | set(e):
                    x = d[off] if off in d else self.initial(r, root, off)
                    y = e[off] if off in e else self.initial(m, root, off)
                    n[off] = self.joincell(x, y, (root, off, b.id))
                    if n[off] is None:
                        del n[off]
                r.c[root] = n
            r.ver = vers
        return r

    def clobber(self, mem, root, ver):
        mem.c.pop(root, None)
        mem.ver[root] = ver

    # ------------------------------------------------------------------ fixpoint
    def run(self):
        f = self.f
        order = f.dom().rpo
        for sweep in range(40):
            snap = (dict(self.env), len(self.edges), dict(self.prov))
            changed = False
            for b in order:
                if b is not f.blocks[0] and not any((p.id, b.id) in self.edges for p in b.upreds):
                    continue
                ins = [self.out[p.id] for p in b.upreds if (p.id, b.id) in self.edges and p.id in self.out]
                mem = self.joinmem(ins, b) if ins else Mem()
                self.inmem[b.id] = mem
                m = Mem(mem)
                self.block(b, m)
                self.edges -= self.backs
                o = self.out.get(b.id)
                if o is None or not o.same(m):
                    changed = True
                    self.out[b.id] = m
            if not changed and snap[0] == self.env and snap[1] == len(self.edges) and snap[2] == self.prov:
                self.sweeps = sweep
                break
        else:
            self.sweeps = None
        if self.sweeps is None:
            raise RuntimeError("no fixed point for %s" % f.name)

    def events(self, fn):
        """fn(inst, mem) for every instruction that can execute, with the final values"""
        self.collect = fn
        for b in self.f.dom().rpo:
            if b.id in self.inmem:
                self.block(b, Mem(self.inmem[b.id]))
        self.collect = None

    def executed(self, b):
        return b.id in self.inmem

    def block(self, b, mem):
        for i in b.insts:
            if i.op == "dbg":
                continue
            if self.collect is not None:
                self.collect(i, mem)
            if i.op == "br":
                if len(b.succs) == 1 or not i.args:
                    self.edges.add((b.id, b.succs[0].id))
                else:
                    for t in self.conds(self.get(i.args[0])):
                        self.edges.add((b.id, b.succs[0 if t else 1].id))
            elif i.op == "switch":
                self.switch(b, i)
            elif i.op not in ("ret", "unreachable"):
                if i.id in self.keys:
                    # the name now means another place
                    for d in self.keys[i.id]:
                        mem.c.pop(d, None)
                v = self.inst(i, mem)
                if i.ty != "void":
                    if v is not None and v[0] == "top":
                        v = self.opaque(i, [])
                    self.env[i.id] = v

    def conds(self, v):
        if v is None:
            return (True, False)
        r = set()
        for x in self.alts(v):
            c = cval(x) if x is not None else None
            r |= {bool(c)} if c is not None else {True, False}
        return r

    def switch(self, b, i):
        v = self.get(i.args[0])
        tg = set()
        for x in self.alts(v):
            c = cval(x) if x is not None and x[0] == "b" else None
            if c is None:
                rng = self.range(x)
                tg |= {i.dflt.id}
                for k, t in i.cases:
                    if rng is None or rng[0] <= (k & ((1 << len(x[1])) - 1)) <= rng[1]:
                        tg.add(t.id)
                continue
            m = (1 << len(x[1])) - 1
            for k, t in i.cases:
                if k & m == c:
                    tg.add(t.id)
                    break
            else:
                tg.add(i.dflt.id)
        for t in tg:
            self.edges.add((b.id, t))

    def range(self, v):
        if v is None or v[0] != "b":
            return None
        lo, hi = bounds(v)
        if self.facts_ is not None:
            l = leaf(v)
            if l[0] not in ("c", "m"):
                r = self.facts_(l)
                if r is not None:
                    lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    # ------------------------------------------------------------------ instructions
    def inst(self, i, mem):
        op = i.op
        if op == "phi":
            vals = [self.get(v) for b, v in i.inc if (b.id, i.b.id) in self.edges]
            al = {x for v in vals if v is not None for x in self.alts(v)}
            if len(al) > 1 and i.ty != "ptr" and width(i.ty) >= 16 and any(x[0] == "b" and isinstance(x[1][0], tuple) and x[1][0][0][0] == "v" for x in al):
                # one of several, some of them computed: give it a name of its own, so that operations on parts of it stay related
                return self.opaque(i, vals)
            return self.setjoin(i, vals)
        if op == "alloca":
            return ("p", ("l", i.id), 0)
        if op == "getelementptr":
            return self.gep(i)
        if op == "load":
            p = self.get(i.args[0])
            n = (width(i.ty) + 7) // 8
            vs = []
            for x in self.alts(p):
                vs.append(self.load(mem, i, x, n))
            return self.setjoin(i, vs)
        if op == "store":
            v, p = self.get(i.args[0]), self.get(i.args[1])
            t = i.args[0].ty if not isinstance(i.args[0], Const) else None
            n = (width(t) + 7) // 8 if t else self.csize(i.args[0])
            al = [x for x in self.alts(p) if x is not None and x[0] == "p"]
            for x in al:
                self.store(mem, x, v, n, weak=len(al) > 1)
            return None
        if op == "call":
            return self.call(i, mem)
        if op == "select":
            c = self.get(i.args[0])
            vs = []
            t = self.conds(c)
            if True in t:
                vs.append(self.get(i.args[1]))
            if False in t:
                vs.append(self.get(i.args[2]))
            return self.setjoin(i, vs)
        ops = [self.get(a) for a in i.args]
        w = width(i.ty)
        if op in ("zext", "trunc", "sext", "bitcast", "freeze", "inttoptr", "ptrtoint"):
            def cvt(x):
                if x[0] != "b":
                    return x
                bits = x[1]
                if op == "sext":
                    bits = bits + (bits[-1],) * (w - len(bits))
                elif op == "zext":
                    bits = bits + (0,) * (w - len(bits))
                return ("b", bits[:w])
            return self.lift(i, ops, cvt)
        if op in ("and", "or", "xor", "shl", "lshr", "ashr", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem"):
            return self.lift(i, ops, lambda a, b: self.arith(op, a, b, w))
        if op == "icmp":
            return self.lift(i, ops, lambda a, b: self.icmp(i, a, b))
        if op in ("fcmp",):
            x = [self.number(a) for a in ops]
            if len(x) == 2 and None not in x:
                a, b = x
                r = {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}.get(i.pred[1:])
                if r is not None:
                    return const(int(r), 1)
            return self.opaque(i, ops, "f")
        return self.opaque(i, ops, kindof(i))

    @staticmethod
    def number(v):
        """the floating-point number a value is, if known"""
        if v is None or v[0] != "b":
            return None
        r = v[1][0]
        if isinstance(r, tuple) and r[0][0] == "k" and all(x == r for x in v[1]):
            try:
                return float(r[0][1])
            except ValueError:
                return None
        c = cval(v)
        if c is None or len(v[1]) not in (32, 64):
            return None
        return struct.unpack("<d" if len(v[1]) == 64 else "<f", c.to_bytes(len(v[1]) // 8, "little"))[0]

    def csize(self, c):
        if c.k == "int":
            return (c.w + 7) // 8
        return {"float": 4, "double": 8}.get(c.raw.get("ty", ""), 8)

    def arith(self, op, a, b, w):
        if a[0] != "b" or b[0] != "b":
            return None
        x, y = cval(a), cval(b)
        if x is not None and y is not None:
            sx, sy = sval(a), sval(b)
            m = (1 << w) - 1
            try:
                r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: x >> y,
                     "ashr": lambda: sx >> y, "add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                     "udiv": lambda: x // y, "urem": lambda: x % y,
                     "sdiv": lambda: int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1),
                     "srem": lambda: (abs(sx) % abs(sy)) * (-1 if sx < 0 else 1)}[op]()
            except ZeroDivisionError:
                return None
            return const(r & m, w)
        A, B = a[1], b[1]
        if op in ("shl", "lshr", "ashr"):
            if y is None or y >= w:
                return None
            if op == "shl":
                return ("b", ((0,) * y + A)[:w])
            return ("b", A[y:] + ((0 if op == "lshr" else A[-1]),) * y)
        if op == "mul" and (x is not None or y is not None):
            c, v = (x, B) if x is not None else (y, A)
            if c and c & (c - 1) == 0:
                k = c.bit_length() - 1
                return ("b", ((0,) * k + v)[:w])
            return const(0, w) if c == 0 else None
        if op == "udiv" and y and y & (y - 1) == 0:
            k = y.bit_length() - 1
            return ("b", A[k:] + (0,) * k)
        if op == "urem" and y and y & (y - 1) == 0:
            k = y.bit_length() - 1
            return ("b", A[:k] + (0,) * (w - k))
        if op in ("add", "or", "xor", "and"):
            r = []
            for p, q in zip(A, B):
                if op == "and":
                    z = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None
                elif op == "or":
                    z = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else None
                elif op == "xor":
                    z = q if p == 0 else p if q == 0 else 0 if p == q else None
                else:
                    z = q if p == 0 else p if q == 0 else None
                if z is None:
                    return None
                r.append(z)
            return ("b", tuple(r))
        if op == "sub" and y == 0:
            return a
        return None

    def icmp(self, i, a, b):
        pred = i.pred
        if a[0] == "p" or b[0] == "p":
            if a == b:
                return const(1 if pred in ("eq", "uge", "ule", "sge", "sle") else 0, 1)
            o = b if a[0] == "p" else a
            p = a if a[0] == "p" else b
            if cval(o) == 0 and (p[1][0] in ("l", "g", "d") or p[1][0] == "a" and self.nonnull):
                if pred == "eq":
                    return const(0, 1)
                if pred == "ne":
                    return const(1, 1)
            if a[0] == b[0] == "p" and a[1] == b[1] and pred in ("eq", "ne"):
                return const(int((a[2] == b[2]) == (pred == "eq")), 1)
            if a[0] == b[0] == "p" and a[1] == b[1] and pred[0] == "u":
                return const(int({"ugt": a[2] > b[2], "uge": a[2] >= b[2], "ult": a[2] < b[2], "ule": a[2] <= b[2]}[pred]), 1)
            return None
        if len(a[1]) != len(b[1]):
            return None
        if pred in ("eq", "ne"):
            if a == b:
                return const(int(pred == "eq"), 1)
            for p, q in zip(a[1], b[1]):
                if p in (0, 1) and q in (0, 1) and p != q:
                    return const(int(pred == "ne"), 1)
        w = len(a[1])
        ra, rb = self.range(a), self.range(b)
        if pred[0] == "s" and pred not in ("eq", "ne"):
            h = 1 << (w - 1)
            if ra[1] < h and rb[1] < h:
                pass
            elif cval(a) is not None and cval(b) is not None:
                ra, rb = (sval(a),) * 2, (sval(b),) * 2
            else:
                sb = sval(b) if cval(b) is not None else None
                if ra[1] < h and sb is not None:
                    rb = (sb, sb)
                else:
                    return None
        k = pred[1:] if pred not in ("eq", "ne") else pred
        if k == "eq" or k == "ne":
            if ra[1] < rb[0] or rb[1] < ra[0]:
                return const(int(k == "ne"), 1)
            if ra[0] == ra[1] == rb[0] == rb[1]:
                return const(int(k == "eq"), 1)
            return None
        if k in ("gt", "le"):
            t = True if ra[0] > rb[1] else False if ra[1] <= rb[0] else None
            return None if t is None else const(int(t == (k == "gt")), 1)
        t = True if ra[1] < rb[0] else False if ra[0] >= rb[1] else None
        return None if t is None else const(int(t == (k == "lt")), 1)

    def linear(self, v):
        """(key, constant) of an integer used as an offset: the value without its constant part"""
        c = 0
        while isinstance(v, Inst):
            if v.op in ("sext", "zext"):
                v = v.args[0]
            elif v.op == "add" and isinstance(v.args[1], Const) and v.args[1].k == "int":
                c += v.args[1].v
                v = v.args[0]
            elif v.op == "add" and cval(self.get(v.args[1])) is not None:
                c += sval(self.get(v.args[1]))
                v = v.args[0]
            else:
                break
        x = self.get(v)
        if x is not None and x[0] == "b" and not (isinstance(v, Inst) and v.op == "phi"):
            l = leaf(x)
            if l[0] not in ("c", "m"):
                return ("x", l), c
        return (v.id if isinstance(v, (Inst, Arg)) else str(v)), c

    def gep(self, i):
        base = self.get(i.base)
        if base is None:
            return None
        offs = [((), i.off)]
        for v, s in i.vars:
            x = self.get(v)
            cs = [sval(y) for y in self.alts(x)] if x is not None and all(y is not None and y[0] == "b" for y in self.alts(x)) else [None]
            if None in cs:
                k, c = self.linear(v)
                offs = [(key + ((k, s),), o + c * s) for key, o in offs]
            else:
                offs = [(key, o + c * s) for key, o in offs for c in cs]
        res = []
        for x in self.alts(base):
            if x is None:
                continue
            if x[0] != "p":
                res.append(("p", ("n", i.id), 0))
                continue
            for key, o in offs:
                if key:
                    d = ("d", x[1], key)
                    for k, _ in key:
                        if isinstance(k, int):
                            self.keys.setdefault(k, set()).add(d)
                    res.append(("p", d, x[2] + o))
                else:
                    res.append(("p", x[1], x[2] + o))
        return self.setjoin(i, res)

    # ------------------------------------------------------------------ calls
    def call(self, i, mem):
        c = model.callee(i) or "indirect"
        args = [self.get(a) for a in i.args]
        if c.startswith("llvm.lifetime") or c.startswith("llvm.dbg") or c == "llvm.assume":
            if c.startswith("llvm.lifetime.start"):
                for p in self.alts(args[1]):
                    if p is not None and p[0] == "p":
                        mem.c.pop(p[1], None)
                        mem.ver.pop(p[1], None)
            return None
        r = None
        if self.calls_ is not None:
            r = self.calls_(self, i, c, args)
        if c.startswith("llvm.bswap"):
            def sw(x):
                if x[0] != "b":
                    return None
                b = [x[1][k:k + 8] for k in range(0, len(x[1]), 8)][::-1]
                return ("b", sum(b, ()))
            return self.lift(i, args[:1], sw)
        if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
            self.copy(i, mem, args)
            return args[0]
        if c.startswith("llvm.memset") or c == "memset":
            n = cval(args[2])
            for p in self.alts(args[0]):
                if p is None or p[0] != "p":
                    continue
                if n is not None and n <= 4096:
                    b = args[1]
                    for k in range(n):
                        self.store(mem, ("p", p[1], p[2] + k), ("b", b[1][:8]) if b and b[0] == "b" else b, 1, weak=len(self.alts(args[0])) > 1)
                else:
                    before = {o: x for o, x in mem.c.get(p[1], {}).items() if o < p[2]}
                    self.clobber(mem, p[1], ("o", c, i.id, 0, p[2]))
                    mem.c[p[1]] = before
            return args[0]
        if c in ("strncpy", "ms_strncpclean", "ms_strncpcleantail", "ms_strncpopen") and cval(args[2]) is not None and cval(args[2]) <= 4096:
            n = cval(args[2]) + (1 if c in ("ms_strncpclean", "ms_strncpcleantail") else 0)
            for p in self.alts(args[0]):
                if p is not None and p[0] == "p":
                    for k in range(n):
                        self.store(mem, ("p", p[1], p[2] + k), ("b", tuple((("o", c, i.id, 0), k, j) for j in range(8))), 1, weak=len(self.alts(args[0])) > 1)
        elif not self.pure(c):
            wr = self.writes(i)
            for n, a in enumerate(args):
                for p in self.alts(a):
                    if p is None or p[0] != "p":
                        continue
                    root = p[1]
                    if root[0] == "l":
                        if wr is None or n in wr:
                            self.clobber(mem, root, ("o", c, i.id, n, p[2]))
        if i.ty == "void":
            return None
        if r is not None:
            return r
        s = set(self.prov.get(i.id, ()))
        if c.startswith("llvm.f"):
            for a in args:
                s |= self.leaves(a, "f")
            self.prov[i.id] = frozenset(s)
            self.own[i.id] = frozenset(set(self.own.get(i.id, ())).union(*[self.leaves(a, "f", True) for a in args]))
            return self.fresh(("v", i.id), width(i.ty))
        if i.ty == "ptr":
            return ("p", ("n", i.id), 0)
        for a in args:
            s |= self.leaves(a)
        s.add(("r", c, i.id))
        self.prov[i.id] = frozenset(s)
        self.own[i.id] = frozenset({("r", c, i.id)})
        return self.fresh(("v", i.id), width(i.ty))

    @staticmethod
    def pure(c):
        return c in ("ms_rlog", "strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "ms_crc32c", "ms_bigendianhost", "mem:free",
                     "mem:malloc", "mem:realloc", "ms_encodingstr", "ms_samplesize", "ms_sampletime", "ms_time2nstime", "ms_timestr2nstime",
                     "__ctype_b_loc", "isdigit", "printf", "fprintf") or c.startswith("llvm.")

    def writes(self, i):
        """arguments a call may store through; None: any"""
        return self.wr(model.callee(i)) if self.wr is not None else None

    def copy(self, i, mem, args):
        n = cval(args[2])
        ds = [p for p in self.alts(args[0]) if p is not None and p[0] == "p"]
        ss = [p for p in self.alts(args[1]) if p is not None and p[0] == "p"]
        if n is None or n > 4096 or len(ds) != 1 or len(ss) != 1:
            for p in ds:
                # a copy of unknown length: everything behind its start is replaced
                d = mem.c.setdefault(p[1], {})
                for o in [o for o in d if o >= p[2]]:
                    d[o] = self.joincell(d[o], (("b", tuple((("cp", i.id), o - p[2], j) for j in range(8))), 0), (p[1], o, i.id))
            return
        d, s = ds[0], ss[0]
        cells = [self.cell(mem, s[1], s[2] + k) for k in range(n)]
        dd = mem.c.setdefault(d[1], {})
        for k, c in enumerate(cells):
            if c is None:
                dd.pop(d[2] + k, None)
            else:
                dd[d[2] + k] = c
