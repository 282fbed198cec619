"""Memory-access obligations: which bytes every access touches, and how large the object
it designates is known to be."""
from .ir import Const, Inst, Arg, fname
from . import model, lin as LN
from .memory import width

# documented interfaces: function -> {pointer parameter index: (kind, ...)}
#   ("arg", n)          the object is at least as long as the value of parameter n
#   ("const", n)        at least n bytes
#   ("plus", n, k)      at least parameter n + k bytes
# a trailing "r" or "w" tells which accesses the interface makes
BUFFERS = {
    "ms3_detect": {0: ("arg", 1)},
    "msr3_parse": {0: ("arg", 1)},
    "ms_parse_raw2": {0: ("arg", 1)},
    "ms_parse_raw3": {0: ("arg", 1)},
    "ms_decode_data": {0: ("arg", 1), 4: ("arg", 5)},
    "ms_crc32c": {0: ("arg", 1)},
    "msr3_pack_header2": {1: ("arg", 2)},
    "msr3_pack_header3": {1: ("arg", 2)},
    "msr3_repack_mseed3": {1: ("arg", 2)},
    "msr_encode_text": {0: ("times", 1, 1), 2: ("arg", 3)},
    "msr_encode_int16": {0: ("times", 1, 4), 2: ("arg", 3)},
    "msr_encode_int32": {0: ("times", 1, 4), 2: ("arg", 3)},
    "msr_encode_float32": {0: ("times", 1, 4), 2: ("arg", 3)},
    "msr_encode_float64": {0: ("times", 1, 8), 2: ("arg", 3)},
    "msr_encode_steim1": {0: ("times", 1, 4), 2: ("arg", 3)},
    "msr_encode_steim2": {0: ("times", 1, 4), 2: ("arg", 3)},
    # text helpers: documented sizes of the caller's buffers
    "ms_nstime2timestr": {1: ("const", 37, "w")},
    "ms_nstime2timestrz": {1: ("const", 37, "w")},
    "ms_strncpclean": {0: ("plus", 2, 1, "w"), 1: ("arg", 2, "r")},
    "ms_strncpcleantail": {0: ("plus", 2, 1, "w"), 1: ("arg", 2, "r")},
    "ms_strncpopen": {0: ("arg", 2, "w")},
    "ms_nslc2sid": {0: ("arg", 1, "w")},
    "ms_seedchan2xchan": {0: ("const", 6, "w")},
    "ms_xchan2seedchan": {0: ("const", 4, "w")},
    "ms_sid2nslc": {1: ("const", 64, "w"), 2: ("const", 64, "w"), 3: ("const", 64, "w"), 4: ("const", 64, "w")},
    "mstl3_readbuffer": {1: ("arg", 2)},
    "mstl3_readbuffer_selection": {1: ("arg", 2)},
}
# fields holding a buffer whose length is another field of the same object
FIELDBUF = {
    "MS3Record.record": "MS3Record.reclen",
    "MS3Record.datasamples": "MS3Record.datasize",
    "MS3TraceSeg.datasamples": "MS3TraceSeg.datasize",
    "MS3Record.extra": "MS3Record.extralength",
}
# library routines: (pointer argument, mode, length argument | constant)
EXT = {
    "memcmp": [(0, "r", 2), (1, "r", 2)],
    "memchr": [(0, "r", 2)],
    "strncpy": [(0, "w", 2)],
    "snprintf": [(0, "w", 1)],
    "vsnprintf": [(0, "w", 1)],
    "fgets": [(0, "w", 1)],
    "fread": [(0, "w", (1, 2))],
    "fwrite": [(0, "r", (1, 2))],
    "read": [(1, "w", 2)],
}


class Access:
    __slots__ = ("inst", "mode", "ptr", "size", "sizev", "what", "plus")

    def __init__(self, inst, mode, ptr, size=None, sizev=None, what="", plus=0):
        self.plus = plus
        self.inst, self.mode, self.ptr, self.size, self.sizev, self.what = inst, mode, ptr, size, sizev, what


def accesses(f):
    for i in f.insts():
        if i.op == "load":
            yield Access(i, "r", i.args[0], size=i.d["sz"], what="read of %d byte(s)" % i.d["sz"])
        elif i.op == "store":
            yield Access(i, "w", i.args[1], size=i.d["sz"], what="write of %d byte(s)" % i.d["sz"])
        elif i.op == "call":
            c = model.callee(i) or ""
            if c.startswith(("llvm.memcpy", "llvm.memmove")):
                yield Access(i, "w", i.args[0], sizev=i.args[2], what="copy destination")
                yield Access(i, "r", i.args[1], sizev=i.args[2], what="copy source")
            elif c.startswith("llvm.memset"):
                yield Access(i, "w", i.args[0], sizev=i.args[2], what="fill")
            elif c in EXT:
                for p, m, n in EXT[c]:
                    if isinstance(n, tuple):
                        yield Access(i, m, i.args[p], sizev=n, what=c)
                    else:
                        yield Access(i, m, i.args[p], sizev=i.args[n], what=c)
            elif c in BUFFERS:
                for p, spec in BUFFERS[c].items():
                    m = spec[-1] if spec[-1] in ("r", "w") else "rw"
                    if spec[0] == "times":
                        continue
                    if spec[0] == "const":
                        yield Access(i, m, i.args[p], size=spec[1], what="buffer passed to " + c)
                    else:
                        yield Access(i, m, i.args[p], sizev=i.args[spec[1]], what="buffer passed to " + c,
                                     plus=spec[2] if spec[0] == "plus" else 0)
            elif c == "strcpy":
                t = model.const_string(f.P, i.args[1])
                if t is not None:
                    yield Access(i, "w", i.args[0], size=len(t) + 1, what="copy of %r" % t.decode("latin1"))
            if c in PRINTF and len(i.args) > PRINTF[c]:
                yield from printed(f.P, i, PRINTF[c])


PRINTF = {"ms_rlog": 2, "ms_rlog_l": 3, "printf": 0, "fprintf": 1, "snprintf": 2}


def printed(P, i, fmtarg):
    """text read through the directives of a literal format"""
    fmt = model.const_string(P, i.args[fmtarg])
    if fmt is None:
        return
    k = fmtarg + 1
    for m in model._SPEC.finditer(fmt):
        if m.group(5) == b"%":
            continue
        w = None
        if m.group(2) == b"*":
            k += 1
        if m.group(3) == b"*":
            w = i.args[k] if k < len(i.args) else None
            k += 1
        if k >= len(i.args):
            return
        a = i.args[k]
        k += 1
        if m.group(5) != b"s":
            continue
        if m.group(3) == b"*":
            yield Access(i, "r", a, sizev=w, what="text of at most the given length")
        elif m.group(3):
            yield Access(i, "r", a, size=int(m.group(3)), what="text of at most %s characters" % m.group(3).decode())
        else:
            yield Access(i, "r", a, size=UNBOUNDED, what="text without length limit")


UNBOUNDED = 1 << 60


class Obl:
    """decides access obligations of one function with the bounds engine"""

    def __init__(self, B):
        self.B = B
        self.f = B.f
        self.P = B.P

    def size_lin(self, acc, ctx):
        B = self.B
        if acc.size is not None:
            return LN.const(acc.size)
        v = acc.sizev
        if acc.plus:
            return LN.add(B.lin(self.vview(acc), B.node(v), ctx), LN.const(acc.plus))
        if isinstance(v, tuple):
            a, b = (acc.inst.args[k] for k in v)
            ea, eb = B.lin("u", B.node(a), ctx), B.lin("u", B.node(b), ctx)
            if LN.isconst(ea):
                return LN.scale(eb, LN.cval(ea))
            if LN.isconst(eb):
                return LN.scale(ea, LN.cval(eb))
            return None
        return B.lin(self.vview(acc), B.node(v), ctx)

    def vview(self, acc):
        c = model.callee(acc.inst) or ""
        if c in PRINTF and acc.mode == "r":
            return "s"
        if c in BUFFERS:
            g = self.P.funcs.get(c)
            for n, a in enumerate(acc.inst.args):
                if a is acc.sizev and g and Obl.signed_of(g, n):
                    return "s"
        return "u"

    def static_size(self, root):
        if root[0] == "g":
            g = self.P.globals.get(root[1])
            return g["size"] if g and not g["decl"] else None
        if root[0] == "v":
            i = self.f.byid[root[1]]
            if isinstance(i, Inst) and i.op == "alloca":
                return i.d["asz"]
        return None

    def extent(self, root, ctx):
        """(size expression, description) of the object at a root node, or None"""
        B = self.B
        if root[0] == "g":
            g = self.P.globals.get(root[1])
            if g and not g["decl"]:
                return LN.const(g["size"]), "global " + root[1]
            return None
        if root[0] == "v":
            i = self.f.byid[root[1]]
            if isinstance(i, Arg):
                spec = BUFFERS.get(fname(self.f.name), {}).get(i.i)
                if spec:
                    if spec[0] == "const":
                        return LN.const(spec[1]), "parameter " + i.name
                    n = self.f.args[spec[1]]
                    e = B.lin("s" if self.signed_arg(spec[1]) else "u", ("v", n.id), ctx)
                    if spec[0] == "plus":
                        e = LN.add(e, LN.const(spec[2]))
                    elif spec[0] == "times":
                        e = LN.add(LN.const(0), e, spec[2])
                    return e, "parameter %s (%s bytes)" % (i.name, n.name)
                return None
            if i.op == "alloca":
                return LN.const(i.d["asz"]), "local %s" % (i.name or "buffer")
            if i.op == "call":
                c = model.callee(i) or ""
                n = {"mem:malloc": 0, "mem:realloc": 1, "malloc": 0, "realloc": 1, "libmseed_memory_prealloc": 1}.get(c)
                if n is not None:
                    return B.lin("u", B.node(i.args[n]), ctx), "allocation at line %d" % i.line
            return None
        if root[0] == "m":
            fl = root[1][3]
            if fl in FIELDBUF:
                # length field of the same object, at function entry
                s, m = FIELDBUF[fl].split(".")
                base, off = root[1][0], root[1][1]
                fo = lo = ls = None
                for n, o, z in self.P.distructs.get(s, []):
                    if n == m:
                        lo, ls = o, z
                    if n == fl.split(".")[1]:
                        fo = o
                if lo is None or fo is None:
                    return None
                key = (base, off - fo + lo, ls, FIELDBUF[fl])
                return key, fl
        return None

    def signed_arg(self, n):
        return Obl.signed_of(self.f, n)

    @staticmethod
    def signed_of(f, n):
        d = f.dity
        try:
            t = d[n + 1] if len(d) == len(f.args) + 1 else d[n]
        except IndexError:
            return False
        return str(t) in ("int", "int64_t", "int32_t", "int16_t", "int8_t", "long", "short")

    def check(self, acc):
        """None: object of unknown size; True: proven; otherwise a description of what is not proven"""
        B = self.B
        from .bounds import Ctx
        b = acc.inst.b
        ctx = Ctx(B.ctx_at(b))
        root, off = B.ptrlin(acc.ptr, ctx)
        if acc.size is not None and LN.isconst(off):
            n = self.static_size(root)
            if n is not None and 0 <= LN.cval(off) and LN.cval(off) + acc.size <= n:
                return True
        return self.check_at(acc, b, ctx, root, off, 3)

    def check_at(self, acc, b, ctx, root, off, depth):
        B = self.B
        from .bounds import Ctx
        if acc.size == UNBOUNDED and not (root[0] == "v" and isinstance(self.f.byid[root[1]], Arg)):
            return None
        ext = self.extent(root, ctx)
        if ext is None:
            return self.check_split(acc, b, ctx, root, off, depth)
        size, desc = ext
        if isinstance(size, tuple):
            n = B.mem.at(acc.inst.b, B.mem.pos[acc.inst.id], size)
            size = B.lin("s" if size[3].endswith("reclen") else "u", B.mem.find(n), ctx)
        n = self.size_lin(acc, ctx)
        if n is None:
            return "%s: length of the access is not a linear expression" % desc
        if acc.what.startswith("text of at most the given") and not self.prove(n, b, ctx):
            return "%s: length of the text may be negative, i.e. unlimited" % desc
        if not self.prove(off, b, ctx):
            return "%s: start of the %s may lie before it" % (desc, acc.what)
        goal = LN.add(LN.add(size, off, -1), n, -1)
        if not self.prove(goal, b, ctx):
            return "%s: end of the %s may lie beyond it" % (desc, acc.what)
        return True

    def prove(self, goal, b, ctx):
        from .bounds import Ctx
        B = self.B
        c = Ctx(ctx)
        if c.split is not None:
            B.sync(c, goal)
            if B.ent(c, goal):
                return True
        return B.prove(goal, b, ctx=c)

    def check_split(self, acc, b, ctx, root, off, depth):
        """one of several objects, depending on how control got here"""
        B = self.B
        if depth <= 0:
            return None
        some = False
        cases = []
        if root[0] == "v":
            i = B.f.byid[root[1]]
            if isinstance(i, Inst) and i.op == "select":
                cases = [(B.kid_select(ctx, i, t), b, B.mem.ptr(i.args[1 if t else 2])) for t in (True, False)]
            elif isinstance(i, Inst) and i.op == "phi" and i.b.id not in B.loops:
                cases = [(B.kid_join(ctx, i.b, p), b, B.mem.ptr(v)) for p, v in i.inc]
        elif root in B.mem.memphi and root[2][1] not in B.loops:
            j = B.f.blocks[root[2][1]]
            cases = [(B.kid_join(ctx, j, p), b, B.nptr(o)) for p, o in B.mem.memphi[root]]
        if not cases:
            return None
        for c, bb, (r, o, vs, fl) in cases:
            e = LN.add(off, LN.const(o))
            for v, sc in vs:
                e = LN.add(e, B.lin("s", B.node(v), c), sc)
            if r[0] == "c":
                continue        # a null pointer: not a matter of bounds
            x = self.check_at(acc, bb, c, r, e, depth - 1)
            if x is None:
                return None
            if x is not True:
                return x
            some = True
        return some or None


class Contracts:
    """facts at function entry and about call results"""

    def entry(self, B, ctx):
        f = B.f
        for p, spec in BUFFERS.get(fname(f.name), {}).items():
            if spec[0] in ("arg", "plus", "times"):
                a = f.args[spec[1]]
                w = width(a.ty)
                if w == 64:
                    # no object is larger than half the address space
                    n = ("v", a.id)
                    B.touch(("u", n), ctx)
                    ctx.add(LN.add(LN.const(1 << 62), LN.atom(("u", n)), -1))
                else:
                    # a negative length describes no buffer
                    n = ("v", a.id)
                    B.touch(("s", n), ctx)
                    ctx.add(LN.atom(("s", n)))

    def call_result(self, B, i, a, ctx):
        return []
