"""Where record bytes go and where record bytes come from: reads the results of the byte provenance interpretation (bits.py)
under the cases of format.py and compares them with the specified layouts.  Judges two things separately: the position, width
and type of every field used (F01) and its byte order (F02)."""
from . import bits, model
from .format import V2, V3, V2LEN, V3LEN, BLK
from .ir import Const, Inst


class Judge:
    """collects findings: what = 'place' (F01) or 'order' (F02)"""

    def __init__(self, P, f, case):
        self.P, self.f, self.case = P, f, case
        self.out = []           # (what, key, text)
        self.n = {}
        self.inst = {i.id: i for b in f.blocks for i in b.insts}

    def bad(self, what, i, key, text):
        self.out.append((what, "%s:%s" % (self.f.name, key), "%s (%s) in the case %s: %s" % (self.f.name, i.where(), self.case.name(), text)))

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n


def table(case, root):
    """the layout that applies to an object root, or None"""
    if root == case.rec:
        return V3 if case.version == 3 else V2
    if bits.strip(root) == case.rec and root[0] == "d" and case.version == 2:
        if any(isinstance(k, tuple) and k[0][0] == "x" and k[0][1][1] == case.rec and k[0][1][2] == 44 for k in root[2] if isinstance(k, tuple) and isinstance(k[0], tuple)):
            return None         # data payload
        if root[1] == case.rec and case.blk:
            return BLK[case.blk][0]
    return None


def field(tab, off, n):
    """(offset, name, width, type) of the field that contains the bytes"""
    for o, (nm, w, t) in tab.items():
        if o <= off and off + n <= o + w:
            return o, nm, w, t
    return None


def end(case, tab):
    return V2LEN if tab is V2 else V3LEN if tab is V3 else (BLK[case.blk][1] or 15)


def uses(J, B):
    """(inst, sink, value) for everything a function does with values that may come from the record"""
    res = []

    def ev(i, mem):
        if i.op == "call":
            c = model.callee(i) or "indirect"
            if c.startswith("llvm."):
                return
            for k, a in enumerate(i.args):
                res.append((i, "arg", B.get(a)))
        elif i.op == "store":
            p = B.get(i.args[1])
            if any(x is not None and x[0] == "p" and bits.strip(x[1])[0] != "l" and bits.strip(x[1]) != J.case.rec for x in B.alts(p)):
                res.append((i, "store", B.get(i.args[0])))
        elif i.op in ("icmp", "fcmp"):
            z = any(isinstance(a, Const) and (a.k == "int" and a.v == 0 or a.k == "fp") for a in i.args) and i.pred in ("eq", "ne", "oeq", "une", "one", "ueq")
            for a in i.args:
                v = B.get(a)
                if v is not None and not (v[0] == "p"):
                    res.append((i, "zero" if z else "compare", v))
        elif i.op == "ret" and i.args:
            res.append((i, "ret", B.get(i.args[0])))
        elif i.op == "switch":
            res.append((i, "compare", B.get(i.args[0])))
    B.events(ev)
    return res


def judge_reads(J, B, alt=()):
    """level one: whatever is used of the record is a field of the specification, whole, of the right type and byte order"""
    case = J.case
    for i, sink, v in uses(J, B):
        if v is None:
            continue
        for l in B.leaves(v, "f" if i.op == "fcmp" else "-"):
            if l[0] in ("p", "r"):
                continue
            tab = table(case, l[1])
            if tab is None:
                continue
            J.count("uses of record fields")
            eq = i.op in ("icmp", "switch") and (i.op == "switch" or i.pred in ("eq", "ne"))
            verdicts = [complaints(case, l, sink, t, eq) for t in [tab] + ([V2] if l[1][0] == "d" and alt else [])]
            if not any(not v for v in verdicts):
                for what, key, text in verdicts[0]:
                    J.bad(what, i, key, text)
            if l[3] > 1:
                J.count("byte orders")


NUM = {"f": "floating point", "u": "unsigned integer", "s": "signed integer"}
ORD = {"le": "little-endian", "be": "big-endian"}


def complaints(case, l, sink, tab, eq=False):
    if l[0] == "m":
        # some bits of one byte: flag bytes, characters
        fl = field(tab, l[2], 1)
        if not fl or not (fl[2] == 1 or fl[3] == "c"):
            return [("place", "partial:%d" % l[2], "only a part of the byte at offset %d of the record is used, which is not a field of one byte" % l[2])]
        return []
    sign, root, off, n, order = l
    fl = field(tab, off, n)
    where = "offset %d" % off + (" of the blockette" if root[0] == "d" else "")
    if fl is None:
        return [("place", "field:%d+%d" % (off, n), "a %d-byte value is taken from %s, which is not a field of the specified layout" % (n, where))]
    o, nm, w, t = fl
    res = []
    if t == "c":
        return res if n == 1 or off in (0,) or w < 3 and n == w else [("place", "text:%d" % off, "%d bytes of the text field '%s' (%s) are used as a number" % (n, nm, where))]
    if sink == "zero":
        return res
    if n != w:
        return [("place", "width:%d+%d" % (off, n), "%d of the %d bytes of field '%s' (%s) are used" % (n, w, nm, where))]
    if sign in NUM and sign != t and not (n == 1 and eq):
        res.append(("place", "type:%d" % off, "field '%s' (%s) is used as %s but is specified as %s" % (nm, where, NUM[sign], NUM[t])))
    if w > 1 and order != case.order and not (tab is V2 and off in (20, 22) and sink == "compare"):
        res.append(("order", "order:%s:%d" % ("b" if root[0] == "d" else "h", off), "field '%s' (%s) is used in %s order, but the record is in %s order" % (
            nm, where, ORD[order], ORD[case.order])))
    return res


def copies(J, B):
    """(inst, destination value, source root, source offset, length value, memory) of text and block copies from the record"""
    res = []

    def ev(i, mem):
        if i.op != "call":
            return
        c = model.callee(i) or ""
        if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove", "strncpy", "ms_strncpclean", "ms_strncpcleantail", "ms_strncpopen"):
            for x in B.alts(B.get(i.args[1])):
                if x is not None and x[0] == "p" and bits.strip(x[1]) == J.case.rec:
                    res.append((i, B.get(i.args[0]), x[1], x[2], B.get(i.args[2])))
    B.events(ev)
    return res


def judge_copies(J, B):
    for i, d, root, off, n in copies(J, B):
        k = bits.cval(n) if n is not None and n[0] == "b" else None
        tab = table(J.case, root)
        if tab is None or k is None:
            continue
        fl = field(tab, off, 1)
        if fl is None and off >= end(J.case, tab):
            continue            # what follows the layout
        J.count("text fields copied")
        if fl is None or fl[0] != off or (fl[2] != k and not (fl[3] == "c" and k < fl[2] and fl[1] in ("indicator", "sequence"))):
            J.bad("place", i, "copy:%d+%d" % (off, k), "%d bytes are copied from offset %d, which the specification gives to %s" % (
                k, off, "no field" if fl is None else "'%s' (%d bytes from offset %d)" % (fl[1], fl[2], fl[0])))


def content(J, B, mem, root, off, n):
    """leaves of n bytes of memory; text left by a copy routine is ('text', root, offset, length)"""
    res = set()
    for k in range(n):
        c = B.cell(mem, root, off + k)
        if c is None or c[0] is None:
            continue
        for l in B.leaves(c[0]):
            if l[0] in ("p", "r"):
                res.add(l)
                continue
            r = l[1]
            if r[0] == "o" and len(r) == 4 and r[2] in J.inst and r[3] == 0 and (r[1].startswith("ms_strnc") or r[1] in ("strncpy", "strcpy")):
                i = J.inst[r[2]]
                for x in B.alts(B.get(i.args[1])):
                    if x is not None and x[0] == "p" and bits.strip(x[1]) == J.case.rec:
                        ln = B.get(i.args[2]) if len(i.args) > 2 else None
                        res.add(("text", x[1], x[2], bits.cval(ln) if ln is not None and ln[0] == "b" else None))
            elif r[0] in ("l",):
                continue
            else:
                res.add(l)
    return res


def recleaves(J, B, ls):
    """(offset, width) in the record or blockette of a set of leaves: {('h'|'b', offset)}"""
    res = set()
    for l in ls:
        if l[0] in ("p", "r"):
            continue
        r = l[1]
        if r == J.case.rec:
            res.add(("h", l[2]))
        elif table(J.case, r) is not None:
            res.add(("b", l[2]))
    return res


TIMEARGS = ("year", "day", "hour", "minute", "second", "fract")
SIZES = {"b": 4, "i": 8, "n": 8, "s": 1}


def names(J, B, v):
    """field names of the record leaves of a value (or of the memory leaves in a set)"""
    res = set()
    for l in (v if isinstance(v, (set, frozenset)) else B.leaves(v)):
        if l[0] in ("p", "r"):
            continue
        r, o = l[1], l[2]
        tab = table(J.case, r)
        if tab is None:
            continue
        res.add(("b." if r[0] == "d" else "") + fname(tab, o))
    return res


def fname(tab, o):
    """name of the field at an offset, with the distance from its start for text"""
    fl = field(tab, o, 1)
    return "offset %d" % o if not fl else fl[1] + ("+%d" % (o - fl[0]) if fl[3] == "c" and o > fl[0] else "")


def pnames(J, B, v):
    """field names that pointers to record bytes designate"""
    res = set()
    for x in B.alts(v):
        if x is not None and x[0] == "p" and bits.strip(x[1]) == J.case.rec:
            tab = table(J.case, x[1])
            if tab is not None and field(tab, x[2], 1):
                res.add(("b." if x[1][0] == "d" else "") + fname(tab, x[2]))
    return res


def structof(J, B, i, mem, ptr, sname):
    """{member: field names} of a local structure passed to a call"""
    res = {}
    for x in B.alts(B.get(ptr)):
        if x is None or x[0] != "p":
            continue
        fs = J.P.distructs.get(sname) or []
        for nm, off, size in fs:
            ls = content(J, B, mem, x[1], x[2] + off, size)
            s = res.setdefault(nm, set())
            for l in ls:
                if l[0] == "text":
                    tab = table(J.case, l[1])
                    if tab is not None and field(tab, l[2], 1):
                        s.add(("b." if l[1][0] == "d" else "") + fname(tab, l[2]))
            ls = {l for l in ls if l[0] != "text"}
            if size in (1, 2, 4, 8):
                judge_leaves(J, i, {l for z in B.alts(B.load(mem, i, ("p", x[1], x[2] + off), size)) if z is not None for l in B.leaves(z)})
            s |= names(J, B, ls)
    return res


def judge_leaves(J, i, ls):
    """the values of a structure or object handed on are whole fields in the right byte order"""
    for l in ls:
        if l[0] in ("p", "r"):
            continue
        tab = table(J.case, l[1])
        if tab is None:
            continue
        J.count("uses of record fields")
        for what, key, text in complaints(J.case, l, "store", tab):
            J.bad(what, i, key, text)


STRUCTS = {"mseh_add_event_detection_r": "MSEHEventDetection", "mseh_add_calibration_r": "MSEHCalibration", "mseh_add_timing_exception_r": "MSEHTimingException",
           "mseh_add_recenter_r": "MSEHRecenter"}


def observe(J, B):
    """what record fields reach which destination: [(inst, destination, field names)]"""
    P = J.P
    res = []
    rec = {off: (nm, size) for nm, off, size in P.distructs.get("MS3Record", [])}

    def texts(mem, x):
        """field names of the text a pointer designates"""
        s = set()
        for y in B.alts(x):
            if y is not None and y[0] == "p":
                if bits.strip(y[1]) == J.case.rec:
                    s |= pnames(J, B, y)
                elif y[1][0] == "l":
                    ls = content(J, B, mem, y[1], y[2], 1)
                    s |= names(J, B, {l for l in ls if l[0] != "text"})
                    for l in ls:
                        if l[0] == "text":
                            s |= pnames(J, B, ("p", l[1], l[2]))
        return s

    def ev(i, mem):
        if i.op == "store":
            for x in B.alts(B.get(i.args[1])):
                if x is not None and x[0] == "p" and x[1][0] == "n" and x[1][1] in J.case.inits and x[2] in rec:
                    res.append((i, "record." + rec[x[2]][0], names(J, B, B.get(i.args[0]))))
        elif i.op == "call":
            c = model.callee(i) or "indirect"
            if c == "ms_time2nstime":
                for k, nm in enumerate(TIMEARGS):
                    res.append((i, "time." + nm, names(J, B, B.get(i.args[k]))))
            elif c in ("mseh_set_ptr_r",):
                path = P.gstring(i.args[1])
                t = bits.cval(B.get(i.args[3]))
                t = chr(t) if t else "?"
                v = B.get(i.args[2])
                if t == "s":
                    s = texts(mem, v)
                else:
                    s = set()
                    for y in B.alts(v):
                        if y is not None and y[0] == "p" and y[1][0] == "l":
                            ls = {l for l in content(J, B, mem, y[1], y[2], SIZES.get(t, 1)) if l[0] != "text"}
                            judge_leaves(J, i, {l for z in B.alts(B.load(mem, i, y, SIZES.get(t, 1))) if z is not None for l in B.leaves(z)})
                            s |= names(J, B, ls)
                res.append((i, "header." + str(path), s))
            elif c in STRUCTS:
                for nm, s in structof(J, B, i, mem, i.args[2], STRUCTS[c]).items():
                    res.append((i, STRUCTS[c] + "." + nm, s))
            elif c == "ms_rlog":
                fmt = P.gstring(i.args[2]) or ""
                res.append((i, "print." + fmt, [tuple(sorted(names(J, B, B.get(a)) | (texts(mem, B.get(a)) if getattr(a, "ty", "") == "ptr" else set()))) for a in i.args[3:]]))
            elif c in ("memcpy", "memmove", "strncpy", "ms_strncpclean", "ms_strncpcleantail", "ms_strncpopen") or c.startswith(("llvm.memcpy", "llvm.memmove")):
                for x in B.alts(B.get(i.args[0])):
                    if x is not None and x[0] == "p" and (x[1][0] == "a" or x[1][0] == "n" and x[1][1] in J.case.inits):
                        res.append((i, "copy.%s" % (rec.get(x[2], ("?",))[0] if x[1][0] == "n" else "arg%d" % x[1][1]),
                                    texts(mem, B.get(i.args[1])) | {"len:" + str(n) for n in sorted(names(J, B, B.get(i.args[2])))}))
    B.events(ev)
    return res



OUTARGS = {"ms_nstime2time": ("", "year", "day", "hour", "minute", "second", "nanosecond"), "ms_sid2nslc": ("", "network", "station", "location", "channel")}


def sources(J, B, ls, depth=0):
    """where the value of a written field comes from: members of the record structure, results of calls, paths of extra headers"""
    rec = J.P.distructs.get("MS3Record", [])
    res = set()
    for l in ls:
        if l[0] == "r":
            if not l[1].startswith("yyjson"):
                res.add("call:" + l[1])
            continue
        if l[0] == "text":
            r, o = l[1], l[2]
        else:
            r, o = l[1], l[2]
        while r[0] in ("*", "d"):
            r, o = (r[1], r[2]) if r[0] == "*" else (r[1], 0)
        if r == ("a", 0) or r[0] == "n" and r[1] in J.case.inits:
            nm = [n for n, off, size in rec if off <= o < off + size]
            res.add("msr." + nm[0] if nm else "msr+%d" % o)
        elif r[0] == "o" and r[2] in J.inst:
            i = J.inst[r[2]]
            if r[1].startswith("yyjson"):
                res.add("path:" + str(J.P.gstring(i.args[1])))
            elif r[1] in OUTARGS:
                res.add(("time." if "time" in r[1] else "sid.") + OUTARGS[r[1]][r[3]])
            else:
                res.add("call:" + r[1])
        elif r[0] == "a":
            res.add("arg%d" % r[1])
        elif r[0] == "n" and r[1] in J.inst:
            res.add("call:" + str(model.callee(J.inst[r[1]])))
    return res


def swapped(J, l):
    """has the value been byte-swapped relative to the host's order?"""
    opaque = l[1][0] == "v" or l[1][0] == "a" and l[1][1] != 0
    return l[4] != ("le" if opaque or not J.case.big else "be")


def writes(J, B, root):
    """[(inst, destination root, offset, bytes or None, value or None, source names)] for every store into the record"""
    res = []

    def ev(i, mem):
        if i.op == "store":
            v = B.get(i.args[0])
            t = getattr(i.args[0], "ty", None)
            n = (bits.width(t) + 7) // 8 if t else B.csize(i.args[0])
            for x in B.alts(B.get(i.args[1])):
                if x is not None and x[0] == "p" and bits.strip(x[1]) == root:
                    res.append((i, x[1], x[2], n, v, sources(J, B, B.leaves(v, own=True) if v is not None else ())))
        elif i.op == "call":
            c = model.callee(i) or "indirect"
            if c in ("memcpy", "memmove", "memset", "strncpy", "ms_strncpclean", "ms_strncpcleantail", "ms_strncpopen") or c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                for x in B.alts(B.get(i.args[0])):
                    if x is not None and x[0] == "p" and bits.strip(x[1]) == root:
                        ln = B.get(i.args[2])
                        k = bits.cval(ln) if ln is not None and ln[0] == "b" else None
                        if "memset" in c:
                            s = {"fill"}
                        elif J.P.gstring(i.args[1]) is not None:
                            s = {"text:" + J.P.gstring(i.args[1])}
                        else:
                            s = set()
                            for y in B.alts(B.get(i.args[1])):
                                if y is not None and y[0] == "p":
                                    s |= sources(J, B, content(J, B, mem, y[1], y[2], 1)) if y[1][0] == "l" else sources(J, B, {("text", y[1], y[2], 1)})
                            if k is None:
                                s |= {"len:" + q for q in sources(J, B, B.leaves(ln, own=True))}
                        res.append((i, x[1], x[2], k, None, s))
    B.events(ev)
    return res
