"""Checksums of version 3 records: what is covered when one is computed, what happens to the record afterwards, and what validation does."""
from . import bits, ir, model, orders
from . import format as F
from .bits import cval, strip

CRC = (28, 4)
ROOT = ("crc",)
# producers of complete version 3 records: how the record leaves
PRODUCERS = ("msr3_pack_mseed3", "msr3_repack_mseed3")


def word(n, big):
    """the bits of the checksum field's byte n"""
    return tuple((ROOT, n, k) for k in range(8))


class Norm:
    """names of values that stay the same for the same value computed twice"""

    def __init__(self, B):
        self.B, self.cells = B, {}

    def seen(self, i, mem):
        if i.op == "load":
            p = self.B.get(i.args[0])
            if p is not None and p[0] == "p":
                n = (bits.width(i.ty) + 7) // 8
                self.cells[i.id] = (p[1], p[2], tuple(self.B.cell(mem, p[1], p[2] + k) for k in range(n)))

    def of(self, v, depth=0):
        x = self.B.get(v)
        if x is None:
            return None
        if x[0] == "p":
            return x
        if x[0] == "b":
            c = cval(x)
            if c is not None:
                return ("c", c)
            l = bits.leaf(x)
            if l[0] not in ("m",) and l[1][0] not in ("v",):
                return l
        if depth < 12 and isinstance(v, ir.Inst):
            if v.op in ("zext", "sext", "trunc", "freeze"):
                return self.of(v.args[0], depth + 1)
            if v.op in ("add", "mul", "or", "and", "xor"):
                return (v.op, frozenset(str(self.of(a, depth + 1)) for a in v.args))
            if v.op in ("sub", "shl", "lshr", "udiv", "urem"):
                return (v.op,) + tuple(str(self.of(a, depth + 1)) for a in v.args)
            if v.op == "load" and v.id in self.cells:
                return ("ld",) + self.cells[v.id]
            if v.op == "phi":
                s = {str(self.of(a, depth + 1)) for b, a in v.inc if (b.id, v.b.id) in self.B.edges}
                return ("any", frozenset(s)) if len(s) > 1 else next(iter(s), None)
            return ("i", v.id)
        return x


def flat(n):
    """the possible names of a value"""
    return n[1] if isinstance(n, tuple) and n and n[0] == "any" else frozenset((str(n),)) if not isinstance(n, str) else frozenset((n,))


def agree(a, b):
    return a == b or flat(a) == flat(b)


def produced(P, R, fn, big):
    f = P.fn(fn)
    C = F.Case(P, big, "le", None, rec=("a", 98), version=3,
               calls=lambda X, i, c, a: bits.Bits.fresh(ROOT, 32) if c == "ms_crc32c" else None)
    B = C.run(f)
    N = Norm(B)
    B.events(N.seen)
    N2 = {}
    host = "big-endian" if big else "little-endian"

    # the record: what checksums are computed of
    recs = set()
    for b in f.blocks:
        for i in b.insts:
            if i.op == "call" and model.callee(i) == "ms_crc32c" and B.executed(b):
                for p in B.alts(B.get(i.args[0])):
                    if p is not None and p[0] == "p":
                        recs.add((strip(p[1]), p[1], p[2]))
    roots = {r[0] for r in recs}
    handovers = []          # (block or instruction, record, length)
    rets = orders.returns(f)
    # bytes of the checksum field are zero when it is computed
    facts = {}

    def ev(i, mem):
        if i.op == "call" and model.callee(i) == "ms_crc32c":
            R.count("checksum_computations")
            p = B.get(i.args[0])
            if p is None or p[0] != "p" or p[2] != 0 or p[1] != strip(p[1]):
                R.violation("%s:start" % fn, "%s: the checksum does not start at the first byte of the record (%s host)" % (i.where(), host))
                return
            if cval(B.get(i.args[2])) != 0:
                R.violation("%s:previous" % fn, "%s: the checksum of the record continues another checksum instead of starting from zero (%s host)" % (i.where(), host))
            for k in range(CRC[1]):
                c = B.cell(mem, p[1], CRC[0] + k)
                bs = B.bytebits(c)
                if bs is None or any(x != 0 for x in bs):
                    R.violation("%s:zero" % fn, "%s: byte %d of the record's checksum field is not zero on every path when the checksum is computed (%s host)" % (i.where(), CRC[0] + k, host))
                    break
            facts[i.id] = N.of(i.args[1])
        hand = None
        if i.op == "call" and i.args and (model.callee(i) or "indirect") == "indirect" and len(i.args) >= 2:
            p = B.get(i.args[0])
            if p is not None and p[0] == "p" and strip(p[1]) in roots:
                hand = (p, N.of(i.args[1]), i)
                handovers.append((i, p, hand[1], mem_ok(i, mem, p)))
    def mem_ok(i, mem, p):
        for k in range(CRC[1]):
            bs = B.bytebits(B.cell(mem, strip(p[1]), CRC[0] + k))
            if bs != word(k, big):
                return k
        return None
    returned = []
    ends = {}
    for b, v in rets:
        ends.setdefault(b.term.id, []).append(v)

    def evr(i, mem):
        ev(i, mem)
        if fn == "msr3_repack_mseed3":
            for v in ends.get(i.id, ()):
                z = B.get(v)
                if any(x is None or orders.signed(x) is None or orders.signed(x) >= 0 for x in B.alts(z)):
                    for r in roots or {("a", 1)}:
                        handovers.append((i, ("p", r, 0), N.of(v), mem_ok(i, mem, ("p", r, 0))))
    B.events(evr)
    if not handovers:
        return 0
    # must-dataflow: the name of the length covered by a checksum that is still valid
    TOP = "top"
    stin, stout = {}, {}

    def transfer(b, s, probe=None):
        for i in b.insts:
            if probe is not None:
                probe(i, s)
            if i.op == "store":
                ps = [x for x in B.alts(B.get(i.args[1])) if x is not None and x[0] == "p"]
                t = i.args[0].ty if not isinstance(i.args[0], ir.Const) else None
                n = (bits.width(t) + 7) // 8 if t else B.csize(i.args[0])
                if any(strip(p[1]) in roots and not (p[1] in roots and CRC[0] <= p[2] and p[2] + n <= CRC[0] + CRC[1]) for p in ps):
                    s = None
            elif i.op == "call":
                c = model.callee(i) or "indirect"
                if c == "ms_crc32c":
                    s = facts.get(i.id)
                elif c.startswith("llvm.lifetime") or c.startswith("llvm.dbg") or c in ("mem:free",):
                    pass
                elif c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or c in ("memcpy", "memmove", "memset", "strncpy", "strcpy"):
                    p = B.get(i.args[0])
                    n = cval(B.get(i.args[2])) if len(i.args) > 2 else None
                    for x in B.alts(p):
                        if x is not None and x[0] == "p" and strip(x[1]) in roots:
                            if not (x[1] in roots and n is not None and CRC[0] <= x[2] and x[2] + n <= CRC[0] + CRC[1]):
                                s = None
                elif c != "indirect" and not B.pure(c):
                    ro = readonly(P, c)
                    for k, a in enumerate(i.args):
                        if k in ro:
                            continue
                        for x in B.alts(B.get(a)):
                            if x is not None and x[0] == "p" and strip(x[1]) in roots:
                                s = None
        return s
    order = f.dom().rpo
    changed = True
    while changed:
        changed = False
        for b in order:
            if not B.executed(b):
                continue
            ss = [stout.get(p.id, TOP) for p in b.upreds if (p.id, b.id) in B.edges]
            s = TOP
            for x in ss:
                if x == TOP:
                    continue
                if s == TOP:
                    s = x
                elif s is None or x is None:
                    s = None
                elif s != x:
                    s = ("any", flat(s) | flat(x))
            if not ss:
                s = None
            o = transfer(b, s)
            if stin.get(b.id, "x") != s or stout.get(b.id, "x") != o:
                stin[b.id], stout[b.id] = s, o
                changed = True
    at = {}
    for b in order:
        if B.executed(b):
            transfer(b, stin.get(b.id), lambda i, s: at.__setitem__(i.id, s))
    for i, p, n, wrong in handovers:
        R.count("records_handed_over")
        what = "returned" if i.op != "call" else "handed to the caller"
        s = at.get(i.id)
        if s is None or s == TOP:
            R.violation("%s:stale" % fn, "%s: a record is %s without a checksum of its final bytes on some path (%s host)" % (i.where(), what, host))
        elif not agree(s, n):
            R.violation("%s:length" % fn, "%s: the checksum does not cover the stated length of the record that is %s (%s host)" % (i.where(), what, host))
        if wrong is not None:
            R.violation("%s:stored" % fn, "%s: byte %d of a record that is %s does not hold its byte of the little-endian checksum on every path (%s host)" % (i.where(), CRC[0] + wrong, what, host))
        if p[2] != 0:
            R.violation("%s:first" % fn, "%s: what is %s does not start at the first byte of the record" % (i.where(), what))
    return len(handovers)


def readonly(P, c):
    """arguments a routine takes as pointer to constant"""
    d = P.decls.get(c) if hasattr(P, "decls") else None
    if c in ("strcpy", "strncpy", "snprintf", "vsnprintf"):
        return set(range(1, 9))
    if c in ("strlen", "strchr", "strcmp", "strncmp", "memcmp", "fwrite", "write", "puts", "fputs"):
        return set(range(9))
    return set()


# ---------------------------------------------------------------------------------------------------------------- validation
def validated(P, R, big, bit, seed=0x9C3A51E6, value=False):
    """bit None: the stored checksum is right; otherwise that bit differs (value: the computed checksum itself is given)"""
    fn = "msr3_unpack_mseed3"
    f = P.fn(fn)
    off = {0: 77, 1: 83, 2: 3}
    off.update({CRC[0] + k: seed >> 8 * k & 255 for k in range(4)})
    crc = bit if value else seed if bit is None else seed ^ (1 << bit)
    fl = orders.argno(f, "flags", 3)
    lenarg = orders.argno(f, "reclen", 1)
    flags = bits.atoms(("a", fl), 0, 4)
    want = ("b", tuple(1 if k == 2 else b for k, b in enumerate(flags[1])))
    C = F.Case(P, big, "le", None, rec=("a", 0), version=3, obj=P.objinit, force=off, bind={fl: want},
               calls=lambda X, i, c, a: bits.const(crc, 32) if c == "ms_crc32c" else None)
    B = C.run(f)
    host = "big-endian" if big else "little-endian"
    ends = {}
    for b, v in orders.returns(f):
        ends.setdefault(b.term.id, []).append(v)
    good = []
    calls = []

    def ev(i, mem):
        if i.op == "call" and model.callee(i) == "ms_crc32c":
            calls.append(i)
            p = B.get(i.args[0])
            if p != ("p", ("a", 0), 0):
                R.violation("%s:start" % fn, "%s: validation computes the checksum of something else than the record from its first byte" % i.where())
            else:
                for k in range(4):
                    bs = B.bytebits(B.cell(mem, p[1], CRC[0] + k))
                    if bs is None or any(x != 0 for x in bs):
                        R.violation("%s:zero" % fn, "%s: byte %d of the record's checksum field is not zero when validation computes the checksum (%s host)" % (i.where(), CRC[0] + k, host))
                        break
            l = bits.leaf(B.get(i.args[1])) if B.get(i.args[1]) is not None and B.get(i.args[1])[0] == "b" else ("?", None)
            if l[1] != ("a", lenarg):
                R.violation("%s:length" % fn, "%s: validation does not compute the checksum of the whole record" % i.where())
            if cval(B.get(i.args[2])) != 0:
                R.violation("%s:previous" % fn, "%s: validation continues another checksum instead of starting from zero" % i.where())
        for v in ends.get(i.id, ()):
            R.count("returns_compared")
            z = B.get(v)
            if any(x is None or orders.signed(x) is None or orders.signed(x) == 0 for x in B.alts(z)):
                good.append(i)
            changed_bytes(P, R, B, C, i, mem, fn, host)
    B.events(ev)
    R.count("validation_cases")
    if not calls:
        R.violation("%s:none" % fn, "%s: validation is requested but no checksum is computed (%s host)" % (f.name, host))
    if crc == seed and not good:
        R.violation("%s:reject" % fn, "%s: a record with the right checksum is never accepted when validation is requested (%s host)" % (f.name, host))
    if crc != seed and good:
        R.violation("%s:accept" % fn, "%s: success is possible although the checksum field holds %#x and the checksum of the record is %#x (%s host)" % (good[0].where(), seed, crc, host))


def changed_bytes(P, R, B, C, i, mem, fn, host):
    rec = ("a", 0)
    for root in set(mem.c) | set(mem.ver):
        if root[0] in ("l", "g", "o") or strip(root) != rec or root[0] == "*":
            continue
        if root in mem.ver or root != rec and mem.c.get(root):
            R.violation("%s:modified" % fn, "%s: the record may have been changed when the function returns (%s host)" % (i.where(), host))
            return
        for o, c in mem.c.get(root, {}).items():
            bs = B.bytebits(c)
            w = C.init(rec, o)
            if w is None:
                w = tuple((rec, o, k) for k in range(8))
            if bs != tuple(w):
                R.violation("%s:modified" % fn, "%s: byte %d of the record is not what it was before on every path (%s host)" % (i.where(), o, host))
                return


def unrequested(P, R, big):
    """without the request nothing of the record changes either"""
    fn = "msr3_unpack_mseed3"
    f = P.fn(fn)
    fl = orders.argno(f, "flags", 3)
    flags = bits.atoms(("a", fl), 0, 4)
    C = F.Case(P, big, "le", None, rec=("a", 0), version=3, obj=P.objinit, force={0: 77, 1: 83, 2: 3})
    B = C.run(f)
    host = "big-endian" if big else "little-endian"

    def ev(i, mem):
        if i.op == "ret":
            changed_bytes(P, R, B, C, i, mem, fn, host)
    B.events(ev)


def forwarded(P, R):
    """the request reaches the validating routine: every caller passes its own flag (or asks for validation)"""
    todo = {"msr3_unpack_mseed3": orders.argno(P.fn("msr3_unpack_mseed3"), "flags", 3)}
    done = {}
    while todo:
        g, k = todo.popitem()
        done[g] = k
        for f in P.funcs.values():
            sites = [i for b in f.blocks for i in b.insts if i.op == "call" and model.callee(i) == g]
            if not sites or f.name == g:
                continue
            B = bits.Bits(P, f, nonnull=True)
            own = None
            for i in sites:
                if not B.executed(i.b) or k >= len(i.args):
                    continue
                first = B.get(i.args[1]) if g.startswith("ms3_readmsr") and len(i.args) > 2 else None
                R.count("calls_that_pass_the_request")
                for z in B.alts(B.get(i.args[k])):
                    bit = z[1][2] if z is not None and z[0] == "b" and len(z[1]) > 2 else None
                    if bit == 1:
                        continue
                    if isinstance(bit, tuple) and bit[0][0] == "a" and (bit[1], bit[2]) == (0, 2):
                        own = bit[0][1]
                        continue
                    if bit == 0 and nothing_read(B, i, g, P):
                        continue
                    if bit == 0 and not any("flag" in (a.name or "") for a in f.args):
                        continue
                    R.violation("%s:%s" % (f.name, g), "%s: the caller's request to validate checksums is not passed to %s" % (i.where(), g))
            if own is not None and f.name not in done:
                todo[f.name] = own
    return done


def nothing_read(B, i, g, P):
    """the cleanup call of the readers: no path given"""
    h = P.fn(g)
    k = orders.argno(h, "mspath", None)
    return k is not None and k < len(i.args) and cval(B.get(i.args[k])) == 0
