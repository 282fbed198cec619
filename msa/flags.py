"""Flag bits of version 2 records and the extra headers and record flags they stand for: what a reader makes of each bit, what the writer makes of each
extra header, and whether the two are the same mapping."""
import struct
from . import bits, ir, model, modref, orders
from . import format as F
from .bits import cval, sval

BYTES = {36: ("activity", (0, 2, 3, 4, 5, 6)), 37: ("I/O and clock", (0, 1, 2, 3, 4, 5)), 38: ("data quality", (0, 1, 2, 3, 4, 5, 6, 7))}
# blockette: (offset of the flags, bits that have a meaning there, bits of which at most one is set)
BFLAGS = {200: (16, (0, 1, 2), ()), 201: (16, (0,), ()), 300: (15, (0, 1, 2, 3), ()), 310: (15, (2, 3, 4, 5, 6), (4, 5, 6)), 320: (15, (2, 3, 4), ()), 390: (15, (2, 3), ()), 395: (None, (), ())}
ADD = {"mseh_add_event_detection_r": "/FDSN/Event/Detection", "mseh_add_calibration_r": "/FDSN/Calibration/Sequence"}
CMP = ("strncasecmp", "strcasecmp", "strncmp", "strcmp")


class Unclear(Exception):
    pass


def callee(i):
    return model.callee(i) or "indirect"


def bytes_at(B, mem, root, off, n):
    """constant bytes of memory; None where unknown"""
    r = []
    for k in range(n):
        b = B.bytebits(B.cell(mem, root, off + k))
        r.append(sum(x << j for j, x in enumerate(b)) if b is not None and all(x in (0, 1) for x in b) else None)
    return r


def number(bs, big):
    return None if None in bs else int.from_bytes(bytes(bs), "big" if big else "little")


# -------------------------------------------------------------------------------------------------------------------------------------- reading
def success(f):
    """blocks and values of the returns of a function that report success"""
    return [(b, v) for b, v in orders.returns(f)]


def read(P, flags, blk=None, blkflags=None, big=False):
    """what msr3_unpack_mseed2 does with a record that has these flags: ({(path, type, value)}, record flags, [(function, structure, [bytes])])"""
    f = P.fn("msr3_unpack_mseed2")
    content = {("blk", BFLAGS[blk][0]): blkflags} if blkflags is not None else {}
    C = F.Case(P, big, "be", blk or 999, rec=("a", 0), version=2, obj=P.objinit, flags={o: flags.get(o, 0) for o in BYTES}, force={0: 0x30}, content=content,
               wr=P.modref.writes)
    B = C.run(f)
    sets, adds, final = set(), [], []
    off = orders.member(P, "MS3Record", "flags")[0]
    rets = {b.term.id: v for b, v in success(f)}

    def ev(i, mem):
        if i.op == "call" and callee(i) == "mseh_set_ptr_r":
            path = P.gstring(i.args[1])
            ty = cval(B.get(i.args[3]))
            if path is None or ty is None:
                raise Unclear("%s: path or type of the extra header is not a constant" % i.where())
            val = None
            p = B.get(i.args[2])
            if p is not None and p[0] == "p":
                n = {ord("b"): 4, ord("i"): 8}.get(ty)
                if n:
                    val = number(bytes_at(B, mem, p[1], p[2], n), big)
                    if val is not None and ty == ord("b"):
                        val = bool(val)
                    elif val is not None:
                        val -= (val >> 63) << 64
            sets.add((path, chr(ty), val))
        elif i.op == "call" and callee(i) in ADD:
            p = B.get(i.args[2])
            if p is None or p[0] != "p":
                raise Unclear("%s: the entry is not a known structure" % i.where())
            st = {"mseh_add_event_detection_r": "MSEHEventDetection", "mseh_add_calibration_r": "MSEHCalibration"}[callee(i)]
            n = max(o + z for _, o, z in P.distructs[st])
            adds.append((callee(i), st, struct_bytes(P, B, mem, p[1], p[2], n)))
        elif i.id in rets:
            v = B.get(rets[i.id])
            if v is not None and cval(v) not in (None, 0):
                return
            for root in {("n", k) for k in C.inits}:
                final.append(tuple(bytes_at(B, mem, root, off, 1)))
    B.events(ev)
    return sets, set(final), adds


def struct_bytes(P, B, mem, root, off, n):
    """bytes of a structure whose texts were copied from constants"""
    res = []
    for k in range(n):
        c = B.cell(mem, root, off + k)
        b = B.bytebits(c)
        if b is not None and all(x in (0, 1) for x in b):
            res.append(sum(x << j for j, x in enumerate(b)))
            continue
        v = None
        if b is not None and isinstance(b[0], tuple) and b[0][0][0] == "o" and b[0][0][1] == "strncpy":
            r, o = b[0][0], b[0][1]
            i = B.f.byid[r[2]]
            s = {x for x in (P.gstring(i.args[1]),)}
            t = next(iter(s))
            if t is not None:
                t = t if isinstance(t, str) else t.decode("latin1")
                v = ord(t[o]) if o < len(t) else 0
        res.append(v)
    return res


# ------------------------------------------------------------------------------------------------------------------------------ the JSON entries
def entry(P, fn, data, big=False):
    """{key: (kind, value or None, members it comes from)} of the JSON object a function adds for a structure with these bytes"""
    f = P.fn(fn)
    C = F.Case(P, big, "be", None, rec=("a", 99), version=2, content={(("a", 2), k): b for k, b in enumerate(data) if b is not None})
    B = C.run(f)
    what, res, lost = {}, {}, []

    def ev(i, mem):
        if i.op != "call":
            return
        c = callee(i)
        if c.startswith("yyjson_mut_set_") and i.args:
            p = B.get(i.args[0])
            if p is None or p[0] != "p":
                raise Unclear("%s: JSON value at an unknown place" % i.where())
            kind = c[len("yyjson_mut_set_"):]
            v, src = None, frozenset()
            if len(i.args) > 1:
                g = P.gstring(i.args[1])
                x = B.get(i.args[1])
                if kind == "str":
                    if g is not None:
                        v = g
                    elif x is not None and x[0] == "p":
                        t = bytes_at(B, mem, x[1], x[2], 64)
                        if x[1] == ("a", 2):
                            src = frozenset((x[2],))
                        else:
                            b = B.bytebits(B.cell(mem, x[1], x[2]))
                            r = b[0][0] if b is not None and isinstance(b[0], tuple) else ("",)
                            if r[0] == "o" and r[1].startswith("ms_nstime2timestr"):
                                src = frozenset(l[2] for l in B.leaves(B.get(B.f.byid[r[2]].args[0]), own=True) if len(l) > 2 and l[1] == ("a", 2))
                        if 0 in t and None not in t[:t.index(0)]:
                            v = bytes(t[:t.index(0)]).decode("latin1")
                elif x is not None:
                    v = cval(x)
                    src = frozenset(l[2] for l in B.leaves(x, own=True) if len(l) > 2 and l[1] == ("a", 2))
            what.setdefault((p[1], p[2]), set()).add((kind, v, src))
        elif c == "yyjson_mut_obj_add":
            k, v = B.get(i.args[1]), B.get(i.args[2])
            if k is None or v is None or k[0] != "p" or v[0] != "p":
                raise Unclear("%s: unknown key or value of a JSON object" % i.where())
            ks = what.get((k[1], k[2]), set())
            if len(ks) != 1 or next(iter(ks))[1] is None:
                raise Unclear("%s: the key of a JSON entry is not one constant text" % i.where())
            vs = what.get((v[1], v[2]), set())
            res.setdefault(next(iter(ks))[1], set()).update(vs)
    B.events(ev)
    return res


# -------------------------------------------------------------------------------------------------------------------------------------- writing
def name(i):
    c = callee(i)
    return c.rsplit(".", 1)[0] if c.rsplit(".", 1)[-1].isdigit() else c


class Document:
    """the extra headers of one scenario: values by path, values of the entries of the one list that exists by key"""

    def __init__(self, P, paths=None, array=None, entry=None, big=False):
        self.end, self.order = (">", "big") if big else ("<", "little")
        self.P, self.paths, self.array, self.entry = P, paths or {}, array, entry or {}
        self.out, self.texts, self.paths_used = {}, {}, set()

    def find(self, path):
        if path in self.paths:
            return self.paths[path]
        return self.entry.get(path[1:]) if path.startswith("/") else None

    def calls(self, X, i, c, a):
        c = name(i)
        if c == "llvm.fabs.f64":
            return bits.const(0, 64)            # the sample rate is well represented: no blockette 100
        if c in ("yyjson_is_arr", "yyjson_is_obj", "unsafe_yyjson_is_arr", "unsafe_yyjson_is_obj"):
            return bits.const(1, bits.width(i.ty))
        if c.startswith("yyjson_ptr_get"):
            path = self.P.gstring(i.args[1])
            if path is None:
                raise Unclear("%s: the path of an extra header is not a constant" % i.where())
            self.paths_used.add(path)
            v = self.find(path)
            if c == "yyjson_ptr_get":
                if v is None and path != self.array:
                    return bits.const(0, 64)
                return ("p", ("d", ("g", "document"), path), 0)
            kind = c.rsplit("_", 1)[1]
            ok = v is not None and {"bool": v[0] == "bool", "num": v[0] in ("real", "sint", "uint"), "real": v[0] == "real", "str": v[0] == "str",
                                    "sint": v[0] in ("sint", "uint"), "int": v[0] in ("sint", "uint"),
                                    "uint": v[0] == "uint" or v[0] == "sint" and (v[1] is None or v[1] >= 0)}.get(kind, False)
            if not ok:
                return bits.const(0, bits.width(i.ty))
            x = v[1]
            if kind == "str":
                self.texts[i.id] = x
            elif x is not None:
                self.out[(c, i.id)] = {"bool": lambda: bytes([int(bool(x))]), "num": lambda: struct.pack(self.end + "d", float(x)), "real": lambda: struct.pack(self.end + "d", float(x))}.get(
                    kind, lambda: (int(x) & (1 << 64) - 1).to_bytes(8, self.order))()
            return bits.const(1, bits.width(i.ty))
        if c in CMP:
            ts = []
            for k in (0, 1):
                g = self.P.gstring(i.args[k])
                if g is None:
                    p = a[k]
                    if p is not None and p[0] == "p" and p[2] == 0 and p[1][0] == "*" and p[1][1][0] == "o" and p[1][1][2] in self.texts:
                        g = self.texts[p[1][1][2]]
                ts.append(g)
            if None in ts:
                return None
            s, t = ts
            if "case" in c:
                s, t = s.upper(), t.upper()
            if "n" in c[3:4]:
                n = cval(a[2])
                if n is None:
                    return None
                s, t = s[:n], t[:n]
            return bits.const(0 if s == t else 1 if s > t else 0xffffffff, 32)
        return None

    def outs(self, root, off):
        if root[1] == "ms_nstime2time" and root[3] == 6 and 0 <= off < 4:
            return 0                            # no microseconds: no blockette 1001
        b = self.out.get((root[1].rsplit(".", 1)[0] if root[1].rsplit(".", 1)[-1].isdigit() else root[1], root[2]))
        return b[off] if b is not None and root[3] == 2 and 0 <= off < len(b) else None


def write(P, doc, flags=0, big=False):
    """the activity, I/O and quality flag bytes the writer stores, and the flags of a blockette: ([b36, b37, b38], {type: {flag values}})"""
    f = P.fn("msr3_pack_header2")
    C = F.Case(P, big, "be", None, rec=("a", 1), version=2, obj=P.objinit, calls=doc.calls, outs=doc.outs,
               content={(("a", 0), orders.member(P, "MS3Record", "flags")[0]): flags})
    B = C.run(f, once=True)
    fixed = {o: set() for o in BYTES}
    places, types = set(), {}
    latches = {b.term.id for b in f.blocks for t in b.succs if (b.id, t.id) in B.backs}

    def ev(i, mem):
        if i.op == "store":
            for p in B.alts(B.get(i.args[1])):
                if p is not None and p[0] == "p" and bits.strip(p[1]) == ("a", 1) and (p[1] != ("a", 1) or p[2] >= F.V2LEN):
                    places.add((p[1], p[2]))
        elif i.id in latches:
            for r, o in places:
                t = bytes_at(B, mem, r, o, 2)
                if None not in t and t[0] << 8 | t[1] in BFLAGS:
                    t = t[0] << 8 | t[1]
                    s = types.setdefault(t, set())
                    if BFLAGS[t][0] is not None:
                        s.add(bytes_at(B, mem, r, o + BFLAGS[t][0], 1)[0])
    B.events(ev)
    rets = {b.term.id: v for b, v in orders.returns(f)}

    def final(i, mem):
        if i.id in rets:
            v = B.get(rets[i.id])
            if v is not None and all(x is not None and orders.signed(x) is not None and orders.signed(x) < 0 for x in B.alts(v)):
                return
            for o in fixed:
                fixed[o].add(bytes_at(B, mem, ("a", 1), o, 1)[0])
    B.events(final)
    return fixed, types


# ------------------------------------------------------------------------------------------------------------------------------------- printing
def printed(P, fn, ver, flags, blk=None, blkflags=None, big=False):
    """the "[Bit n]" messages a printer can emit for a record with these flags"""
    f = P.fn(fn)
    content = {("blk", BFLAGS[blk][0]): blkflags} if blkflags is not None else {}
    C = F.Case(P, big, "be" if ver == 2 else "le", blk or (999 if ver == 2 else None), rec=("a", 0), version=ver, obj=P.objinit, flags=flags,
               force={0: 77, 1: 83, 2: 3} if ver == 3 else {0: 0x30}, content=content, bind={2: bits.const(3, 8), **({3: bits.const(255, 8)} if ver == 2 else {})})
    B = C.run(f)
    out = set()

    def ev(i, mem):
        if i.op == "call" and callee(i) == "ms_rlog":
            t = P.gstring(i.args[2])
            t = " ".join(x for x in [t] + [P.gstring(a) if isinstance(a, ir.Const) else None for a in i.args[3:]] if x is not None)
            if "[Bit %" in t:
                raise Unclear("%s: the number of the bit printed is not a constant" % i.where())
            if "[Bit " in t:
                out.add(t)
    B.events(ev)
    return out


# ---------------------------------------------------------------------------------------------------------------------------------------- deciding
_P = None


def nm(o, k):
    return "%s flag bit %d" % (BYTES[o][0], k)


def first(e):
    """one kind and value per key, or Unclear"""
    r = {}
    for k, vs in e.items():
        v = {x[:2] for x in vs}
        if len(v) != 1:
            kinds = {x[0] for x in v}
            if len(kinds) != 1:
                raise Unclear("several kinds of value for key %s" % k)
            r[k] = (next(iter(kinds)), None)
        else:
            r[k] = next(iter(v))
    return r


KIND = {"b": "bool", "i": "sint", "n": "real", "s": "str"}


def headers(sets):
    r = {}
    for p, t, v in sets:
        if p in r:
            raise Unclear("several values for extra header %s" % p)
        r[p] = (KIND.get(t, t), v)
    return r


def setup(case):
    """what is done for each job; returns [(class, key, text)], counts"""
    kind, big = case[0], case[1]
    P, out, n = _P, [], {}
    host = "big" if big else "little"

    def count(k, m=1):
        n[k] = n.get(k, 0) + m

    def bad(key, text):
        out.append(("violation", key, "%s (%s-endian host)" % (text, host)))
    try:
        if kind == "fixed":
            fixed(P, big, case[2], bad, count)
        elif kind == "written":
            written(P, big, bad, count)
        elif kind == "blk":
            blockette(P, big, case[2], bad, count)
        elif kind == "entry":
            members(P, big, bad, count)
        else:
            prints(P, big, case[2], bad, count)
    except Unclear as e:
        out.append(("undecided", None, str(e)))
    return case, out, n


def base(P, big):
    return read(P, {}, big=big)


def fixed(P, big, pairs, bad, count):
    """flag bytes -> extra headers and record flags -> flag bytes"""
    s0, f0, _ = base(P, big)
    seen = {}
    for combo in pairs:
        fl = {}
        for o, k in combo:
            fl[o] = fl.get(o, 0) | 1 << k
        s, f, _ = read(P, fl, big=big)
        what = " and ".join(nm(o, k) for o, k in combo)
        if len(f) != 1 or None in next(iter(f)):
            raise Unclear("the record flags that result from %s are not constant" % what)
        rf = next(iter(f))[0]
        new = s - s0
        count("flag_combinations_read")
        if len(combo) == 1:
            o, k = combo[0]
            if not new and rf == next(iter(f0))[0]:
                bad("read:%d:%d" % (o, k), "msr3_unpack_mseed2: %s has no effect: neither an extra header nor a record flag is set" % what)
                continue
            if s0 - s:
                bad("read:%d:%d:removes" % (o, k), "msr3_unpack_mseed2: %s removes extra header %s" % (what, ", ".join(x[0] for x in s0 - s)))
            eff = (frozenset(new), rf)
            if eff in seen:
                bad("read:%d:%d:shared" % (o, k), "msr3_unpack_mseed2: %s and %s are read as the same header or flag" % (what, nm(*seen[eff])))
                continue
            seen[eff] = (o, k)
        doc = Document(P, headers(new), big=big)
        w, _ = write(P, doc, rf, big=big)
        count("flag_combinations_written")
        for o in BYTES:
            if len(w[o]) != 1 or None in w[o]:
                raise Unclear("the %s flags written are not constant" % BYTES[o][0])
            got, want = next(iter(w[o])), fl.get(o, 0)
            if got != want:
                via = ", ".join(sorted({x[0] for x in new}) + (["record flags 0x%02x" % rf] if rf else []))
                bad("pair:%s" % "+".join("%d.%d" % c for c in combo), "msr3_pack_header2: %s (read as %s) is written as %s flags 0x%02x instead of 0x%02x" % (
                    what, via or "nothing", BYTES[o][0], got, want))
                break


def written(P, big, bad, count):
    """extra headers that are false or absent set no bit; a time correction is marked as applied"""
    doc = Document(P, {}, big=big)
    w, _ = write(P, doc, 0, big=big)
    for o in BYTES:
        if w[o] != {0}:
            bad("none:%d" % o, "msr3_pack_header2: without extra headers and record flags the %s flags are %s" % (BYTES[o][0], sorted(map(str, w[o]))))
    paths = sorted(p for p in doc.paths_used if p.startswith(("/FDSN/Flags/", "/FDSN/Event/")))
    for p in paths:
        w, _ = write(P, Document(P, {p: ("bool", 0)}, big=big), 0, big=big)
        count("headers_written_false")
        for o in BYTES:
            if w[o] != {0}:
                bad("false:%s" % p, "msr3_pack_header2: %s: false sets a bit of the %s flags" % (p, BYTES[o][0]))
    w, _ = write(P, Document(P, {"/FDSN/Time/Correction": ("real", 1.5)}, big=big), 0, big=big)
    if w[36] != {2}:
        if None in w[36]:
            raise Unclear("the activity flags written with a time correction are not constant")
        bad("correction", "msr3_pack_header2: with a time correction the activity flags are 0x%02x, not the 'time correction applied' bit alone" % max(w[36]))
    for v in (0.0, 1.0, -1.0):
        w, _ = write(P, Document(P, {"/FDSN/Time/LeapSecond": ("real", v)}, big=big), 0, big=big)
        count("headers_written_false")
        want = 0 if v == 0 else 16 if v > 0 else 32
        if w[36] != {want} and None not in w[36]:
            bad("leap:%g" % v, "msr3_pack_header2: /FDSN/Time/LeapSecond %g gives activity flags 0x%02x instead of 0x%02x" % (v, max(w[36]), want))


def combos(blk):
    o, bits_, excl = BFLAGS[blk]
    r = []
    for m in range(1 << len(bits_)):
        s = {b for k, b in enumerate(bits_) if m >> k & 1}
        if len(s & set(excl)) > 1 or blk == 200 and {0, 2} <= s:
            continue
        r.append(sum(1 << b for b in s))
    return r


def blockette(P, big, blk, bad, count):
    for v in combos(blk) if BFLAGS[blk][0] else [None]:
        _, _, adds = read(P, {}, blk, v, big=big)
        if len(adds) != 1:
            raise Unclear("blockette %d is not read into exactly one entry" % blk)
        fn, st, data = adds[0]
        e = first(entry(P, fn, data, big=big))
        what = "blockette %d%s" % (blk, "" if v is None else " with flags 0x%02x" % v)
        _, t = write(P, Document(P, {}, ADD[fn], e, big=big), 0, big=big)
        count("blockette_round_trips")
        ent = ", ".join("%s=%s" % (k, x[1]) for k, x in sorted(e.items()) if x[1] is not None)
        if set(t) != {blk}:
            bad("type:%d" % blk, "%s is read as an entry (%s) that msr3_pack_header2 writes as %s" % (
                what, ent, ", ".join("blockette %d" % b for b in sorted(t)) or "no blockette"))
            continue
        if v is not None and t[blk] != {v}:
            if None in t[blk] or not t[blk]:
                raise Unclear("the flags written for %s are not constant" % what)
            bad("flags:%d:%d" % (blk, v), "%s is read as an entry (%s) that msr3_pack_header2 writes with flags 0x%02x" % (what, ent, max(t[blk])))


def members(P, big, bad, count):
    """each member of an entry's structure goes to the key the writer fills the field from that the member was read from"""
    from . import records
    struct_of = {"MSEHEventDetection": "mseh_add_event_detection_r", "MSEHCalibration": "mseh_add_calibration_r", "MSEHTimingException": "mseh_add_timing_exception_r"}
    ents = {s: entry(P, fn, [], big=big) for s, fn in struct_of.items() if P.fn(fn) is not None}
    for blk, tab in records.BLKTO.items():
        wb = records.WB.get(blk, {})
        for dest, fields in tab.items():
            s, _, m = dest.partition(".")
            if s not in ents:
                continue
            at = [(o, z) for k, o, z in P.distructs[s] if k == m]
            if not at:
                raise Unclear("%s has no member %s" % (s, m))
            o, z = at[0]
            keys = {k for k, vs in ents[s].items() for _, _, src in vs if any(o <= x < o + z for x in src)}
            for fd in fields:
                fd = fd.partition("b.")[2] or fd
                for w in wb.get(fd) or ():
                    if not w.startswith("path:") or w.count("/") != 1:
                        continue
                    count("members_followed")
                    k = w.rsplit("/", 1)[1]
                    if k not in keys:
                        got = {n for n, oo, zz in P.distructs[s] for _, _, src in ents[s].get(k, ()) if any(oo <= x < oo + zz for x in src)}
                        if k in ents[s] and not got:
                            raise Unclear("%s: what key %s is filled from is not known" % (struct_of[s], k))
                        bad("key:%s:%s" % (s, m), "%s: member %s, read from field '%s' of blockette %d, is not what key %s, which the writer fills that field from, is set to (%s)" % (
                            struct_of[s], m, fd, blk, k, ", ".join(sorted(got)) or "never set"))
        # times
    for s, m, k in (("MSEHEventDetection", "onsettime", "OnsetTime"), ("MSEHCalibration", "begintime", "BeginTime"), ("MSEHCalibration", "endtime", "EndTime"),
                    ("MSEHTimingException", "time", "Time")):
        if s not in ents:
            continue
        o, z = [(o, z) for n, o, z in P.distructs[s] if n == m][0]
        src = {x for _, _, y in ents[s].get(k, ()) for x in y}
        count("members_followed")
        if k in ents[s] and not src:
            raise Unclear("%s: what key %s is filled from is not known" % (struct_of[s], k))
        if not any(o <= x < o + z for x in src) or any(not o <= x < o + z for x in src):
            bad("key:%s:%s" % (s, m), "%s: key %s is not set to member %s" % (struct_of[s], k, m))


def prints(P, big, what, bad, count):
    fn, ver, blk = what
    if ver == 3:
        bytes_ = [(3, range(3), lambda v: ({3: v}, None))]
    elif blk:
        bytes_ = [(BFLAGS[blk][0], BFLAGS[blk][1], lambda v: ({36: 0, 37: 0, 38: 0}, v))]
    else:
        bytes_ = [(o, ks if o != 36 else (0, 1) + ks[1:], (lambda o: lambda v: ({**{36: 0, 37: 0, 38: 0}, o: v}, None))(o)) for o, (_, ks) in BYTES.items()]
    for o, defined, mk in bytes_:
        def at(v):
            fl, bf = mk(v)
            return printed(P, fn, ver, fl, blk, bf, big=big)
        zero = at(0)
        diffs = {k: zero ^ at(1 << k) for k in range(8)}
        if not any(diffs.values()):
            raise Unclear("%s: no message depends on a flag bit at offset %d" % (fn, o))
        for k, d in diffs.items():
            count("flag_bits_printed")
            name = "bit %d of the flags at offset %d%s" % (k, o, " of blockette %d" % blk if blk else "")
            if k in defined and not any("[Bit %d]" % k in t for t in d):
                bad("print:%s:%d:%d" % (blk or ver, o, k), "%s: %s is not printed" % (fn, name))
            wrong = [t for t in d if "[Bit %d]" % k not in t and not (blk == 200 and k == 2 and "[Bit 0]" in t)]
            if wrong:
                bad("print:%s:%d:%d:wrong" % (blk or ver, o, k), "%s: %s changes whether '%s' is printed" % (fn, name, wrong[0].strip()))


def jobs():
    all_ = [(o, k) for o in BYTES for k in BYTES[o][1]]
    leap = {(36, 4), (36, 5)}
    r = []
    for big in (False, True):
        r.append(("fixed", big, [(a,) for a in all_]))
        r.append(("written", big))
        r.append(("entry", big))
        for b in BFLAGS:
            r.append(("blk", big, b))
            if BFLAGS[b][0]:
                r.append(("print", big, ("ms_parse_raw2", 2, b)))
        r.append(("print", big, ("ms_parse_raw2", 2, None)))
        r.append(("print", big, ("ms_parse_raw3", 3, None)))
    pairs = [(a, b) for n, a in enumerate(all_) for b in all_[n + 1:] if {a, b} != leap]
    for k in range(0, len(pairs), 20):
        r.append(("fixed", False, pairs[k:k + 20]))
    r.append(("fixed", False, [tuple(x for x in all_ if x != (36, 5)), tuple(x for x in all_ if x != (36, 4))]))
    return r


def run(P, R):
    import os
    from multiprocessing import Pool
    global _P
    _P = P
    P.objinit = F.initobject(P)
    P.modref = modref.ModRef(P)
    for fn in ("msr3_unpack_mseed2", "msr3_pack_header2", "ms_parse_raw2", "ms_parse_raw3") + tuple(ADD):
        if P.fn(fn) is None:
            R.undecided("%s is not in the analysed source" % fn)
            return
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for case, out, n in pool.imap_unordered(setup, jobs(), chunksize=1):
            R.count("scenarios")
            R.sample("%s, %s-endian host%s" % (case[0], "big" if case[1] else "little", ": %s" % str(case[2])[:80] if len(case) > 2 else ""))
            for k, v in n.items():
                R.count(k, v)
            for w, key, text in out:
                if w == "violation":
                    R.violation(key, text)
                else:
                    R.undecided(text)
