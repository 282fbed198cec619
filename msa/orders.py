"""Byte order of payloads: what the readers record about it, what writers and decoding callers pass on, and what decoders and
encoders do about it. The functions are interpreted with the origin of every bit, per host byte order."""
import os
from multiprocessing import Pool
from . import bits, ir, model
from . import format as F

BIG = {10, 11}                          # always big-endian in version 3; all others little-endian
FIXED = {"int16": (2, 1), "int32": (4, 3), "float32": (4, 4), "float64": (8, 5)}
SAMPLE16 = {"cdsn": 16, "sro": 30, "dwwssn": 32, "geoscope": 13, "geoscope ": 14}
# bits of the high-order byte that the value depends on (CDSN: the range may be chosen by comparison)
MASK = {"cdsn": {0x3f, 0xff}, "sro": {0xff}, "dwwssn": {0xff}, "geoscope": {0x7f}, "geoscope ": {0xff}}
CODES = [0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 30, 32]


def returns(f):
    """[(block whose end is the state at the return, value returned)], separated through the phis that collect results"""
    out = []

    def walk(b, v, seen):
        if getattr(v, "op", None) == "phi" and v.b is b and b.id not in seen and not any(x.op in ("store", "call") for x in b.insts):
            for pb, x in v.inc:
                walk(pb, x, seen | {b.id})
        else:
            out.append((b, v))
    for b in f.blocks:
        for i in b.insts:
            if i.op == "ret" and i.args:
                walk(b, i.args[0], frozenset())
    return out


def signed(v):
    c = bits.cval(v)
    return None if c is None else c - (1 << len(v[1])) if c >> len(v[1]) - 1 else c


def member(P, s, m):
    return [(o, n) for k, o, n in P.distructs[s] if k == m][0]


def argno(f, name, default):
    """position of a named parameter"""
    for k, a in enumerate(f.args):
        if a.name == name:
            return k
    return default


class Out:
    def __init__(self, job):
        self.job, self.out, self.n, self.lost = job, [], {}, []

    def bad(self, i, key, text):
        self.out.append(("%s:%s" % (i.f.name, key), "%s: %s" % (i.where(), text)))

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n


# ---------------------------------------------------------------------------------------------------------------- what the readers record
def recorded(P, J, fn, ver, order, big, enc, b1000):
    f = P.fn(fn)
    off = member(P, "MS3Record", "swapflag")[0]
    force = {0: 77, 1: 83, 2: 3, 15: enc} if ver == 3 else {0: 0x30}
    C = F.Case(P, big, order, 1000 if b1000 is not None else 999, rec=("a", 0), version=ver, obj=P.objinit, force=force,
               bind={argno(f, "flags", 3): bits.const(0, 32)}, content={("blk", 5): b1000, ("blk", 4): enc} if b1000 is not None else None)
    B = C.run(f)
    news = [i.id for b in f.blocks for i in b.insts if i.op == "call" and model.callee(i) == "msr3_init"]
    ends = {}
    for b, v in returns(f):
        ends.setdefault(b.term.id, []).append(v)
    hdr = (order == "be") != big
    if ver == 3:
        pay = [(enc in BIG) != big]
    elif b1000 is None:
        pay = [hdr]
    else:
        pay = [bool(b1000) != big, hdr]
    want = [int(hdr) | 2 * int(p) for p in pay]
    name = "%s, %s host, %s record%s" % (fn, "big-endian" if big else "little-endian", "big-endian" if order == "be" else "little-endian",
                                         ", payload declared %s" % ("big-endian" if b1000 else "little-endian") if b1000 is not None else
                                         ", encoding %d" % enc if ver == 3 else "")
    got = set()

    def ev(i, mem):
        for v in ends.get(i.id, ()):
            if not any(signed(z) is None or signed(z) >= 0 for z in B.alts(B.get(v))):
                continue
            for n in news:
                for z in B.alts(B.load(mem, i, ("p", ("n", n), off), 1)):
                    got.add((bits.cval(z) if z is not None else None, i))
    B.events(ev)
    J.count("successful returns compared", len(got))
    for c, i in sorted(got, key=str):
        if c is None:
            J.lost.append("the byte orders recorded by %s could not be determined" % name)
        elif c & 1 != int(hdr):
            J.bad(i, "recorded-header", "%s: the header is recorded as %s" % (name, "byte-swapped" if c & 1 else "in host order"))
        elif c not in want:
            J.bad(i, "recorded-payload", "%s: the payload is recorded as %s" % (name, "byte-swapped" if c & 2 else "in host order"))
    if got and all(c is not None for c, i in got) and want[0] not in {c for c, i in got}:
        J.bad(next(iter(got))[1], "recorded-payload", "%s: the payload is never recorded as %s" % (name, "byte-swapped" if want[0] & 2 else "in host order"))
    if not got:
        J.lost.append("no successful return of %s was found" % name)


# ---------------------------------------------------------------------------------------------------------------- what is passed on
def passed(P, J, fn, big):
    """the byte swapping requested from decoders by the callers of the dispatcher"""
    f = P.fn(fn)
    off = member(P, "MS3Record", "swapflag")[0]
    B = F.Case(P, big, "be", None, rec=("a", 99), obj=P.objinit).run(f)

    def ev(i, mem):
        if i.op != "call":
            return
        c = model.callee(i)
        k = None
        if c in ("ms_decode_data",) or c and c.startswith("msr_decode_"):
            g = P.fn(c)
            k = argno(g, "swapflag", None)
        if k is None:
            return
        J.count("requests to decode")
        for z in B.alts(B.get(i.args[k])):
            ls = B.leaves(z, own=True) if z is not None else set()
            # only the payload's bit of the recorded byte order, not the header's
            m = [l for l in ls if l[2] == off]
            if not m or any(not (l[0] == "m" and l[4] == 2) for l in m) or len(m) != len(ls):
                J.bad(i, "passed:%s" % c, "the byte order passed to %s is not the one recorded for the payload" % c)
    B.events(ev)


def requested(P, J, fn, ver, big):
    """the byte order that the packing routines request from the encoders"""
    f = P.fn(fn)
    B = F.Case(P, big, "le" if ver == 3 else "be", None, rec=("a", 1), version=ver, obj=P.objinit).run(f)
    want = {}

    def ev(i, mem):
        c = model.callee(i) if i.op == "call" else None
        if not c or not c.startswith("msr_encode_"):
            return
        k = argno(P.fn(c), "swapflag", None)
        if k is None:
            return
        J.count("requests to encode")
        w = int(not big) if ver == 2 or c.startswith("msr_encode_steim") else int(big)
        for z in B.alts(B.get(i.args[k])):
            v = bits.cval(z)
            if v is None:
                J.lost.append("%s: the byte order requested from %s could not be determined" % (i.where(), c))
            elif bool(v) != bool(w):
                J.bad(i, "requested:%s" % c, "%s host: samples of a version %d record are encoded %s by %s" % (
                    "big-endian" if big else "little-endian", ver, "byte-swapped" if v else "in the host's order", c))
    B.events(ev)


# ---------------------------------------------------------------------------------------------------------------- decoders and encoders
def decoder(P, J, name, big, sw, via=False):
    """the first sample decoded, through the dispatcher or not, comes from its bytes in the order asked for"""
    fn = "ms_decode_data" if via else "msr_decode_" + name.strip()
    f = P.fn(fn)
    k = argno(f, "swapflag", 7 if via else len(f.args) - 1)
    bind = {k: bits.const(sw, bits.width(f.args[k].ty))}
    if via or name.startswith("geoscope"):
        k = argno(f, "encoding", 2 if via else 5)
        bind[k] = bits.const(FIXED[name][1] if name in FIXED else SAMPLE16[name] if name in SAMPLE16 else 10 if name == "steim1" else 11, bits.width(f.args[k].ty))
    out = ("a", argno(f, "output", 4 if via else 3))
    B = bits.Bits(P, f, big=big, once=True, bind=bind)
    be = big != bool(sw)                 # the samples are big-endian
    seen = 0

    def ev(i, mem):
        nonlocal seen
        if i.op != "store":
            return
        for x in B.alts(B.get(i.args[1])):
            if x is None or x[0] != "p" or x[1] != out:
                continue
            v = B.get(i.args[0])
            ls = {l for l in B.leaves(v, own=True) if l[0] != "c" and l[1] == ("a", 0)}
            if not ls:
                continue
            J.count("samples decoded")
            seen += 1
            if name in FIXED or name.startswith("steim"):
                w = FIXED[name][0] if name in FIXED else 4
                o = 0 if name in FIXED else 4
                ok = all(l[1:4] == (("a", 0), o, w) and l[4] == ("be" if be else "le") for l in ls)
            else:
                # 16-bit samples: the bits used of each byte
                m = {}
                for l in ls:
                    for b, k in ([(l[2], l[4])] if l[0] == "m" else [((l[2] if (l[4] == "be") == be else l[2] + 1), 0xff), (l[2] + 1 if (l[4] == "be") == be else l[2], 0xff)]
                                 if l[3] == 2 and (l[4] == "be") == be else [(l[2], None)]):
                        m[b] = None if k is None or m.get(b, 0) is None else m.get(b, 0) | k
                hi, lo = (0, 1) if be else (1, 0)
                ok = set(m) == {0, 1} and m[lo] == 0xff and m[hi] in MASK[name]
            if not ok:
                J.bad(i, "decode", "%s host, %sswapped: a decoded sample is put together from the wrong bytes of its input" % (
                    "big-endian" if big else "little-endian", "" if sw else "not "))
    B.events(ev)
    if not seen:
        J.lost.append("no decoded sample of %s was found" % fn)


STEIM = {
    "steim1": [{("s", 12, 1)}, {("s", 12, 2)}, {("-", 12, 4)}],
    "steim2": [{("s", 12, 1)}, {(12, 63), (13, 255), (14, 255), (15, 255)}, {(12, 63), (13, 255), (14, 128)}, {(12, 63), (13, 240)}, {(12, 63)}, {(12, 62)}, {(12, 15)}],
}


def steim(P, J, name, big):
    """the first difference of every packing of big-endian Steim frames is taken from its bits of the first data word"""
    f = P.fn("msr_decode_" + name)
    B = bits.Bits(P, f, big=big, once=True, bind={argno(f, "swapflag", 6): bits.const(int(not big), 32)})
    table = {frozenset(t): 0 for t in STEIM[name]}
    last = None

    def ev(i, mem):
        nonlocal last
        if i.op != "store":
            return
        for x in B.alts(B.get(i.args[1])):
            if x is None or x[0] != "p" or x[1][0] != "l":
                continue
            v = B.get(i.args[0])
            ls = {l for l in B.leaves(v, own=True) if l[0] != "c" and l[1] == ("a", 0)}
            if not ls:
                continue
            last = i
            if any(l[0] != "m" and l[3] > 1 and l[4] != "be" for l in ls):
                J.bad(i, "steim-order", "%s host: a word of a frame is used in the wrong byte order" % ("big-endian" if big else "little-endian"))
                continue
            k = frozenset((l[2], l[4]) if l[0] == "m" else (l[0], l[2], l[3]) for l in ls)
            if k in table:
                table[k] = 1
                J.count("packings of differences compared")
            elif not (len(ls) == 1 and next(iter(ls))[0] != "m"):
                J.bad(i, "steim-bits", "%s host: a difference is taken from bits that no packing of the encoding has it in" % ("big-endian" if big else "little-endian"))
    B.events(ev)
    for k, n in table.items():
        if not n and last is not None:
            J.bad(last, "steim-missing", "%s host: the first difference of one of the packings (%s) is not taken from its bits" % (
                "big-endian" if big else "little-endian", ", ".join("byte %d bits %#x" % x if len(x) == 2 else "%d bytes from byte %d" % (x[2], x[1]) for x in sorted(k, key=str))))
    if last is None:
        J.lost.append("no difference extracted by msr_decode_%s was found" % name)


def encoder(P, J, name, big, sw):
    f = P.fn("msr_encode_" + name)
    B = bits.Bits(P, f, big=big, once=True, bind={argno(f, "swapflag", len(f.args) - 1): bits.const(sw, 32)})
    w = FIXED[name][0] if name in FIXED else 4
    o = 0 if name in FIXED else 4
    be = big != bool(sw)
    iw = 4 if name == "int16" or name.startswith("steim") else w
    seen = 0

    def ev(i, mem):
        nonlocal seen
        if i.op != "ret" and not (i is i.b.term and any((i.b.id, t.id) in B.backs for t in i.b.succs)):
            return
        for z in B.alts(B.load(mem, i, ("p", ("a", 2), o), w)):
            if z is None or z[0] != "b":
                continue
            for l in B.leaves(z, own=True):
                if l[0] == "c" or l[1] != ("a", 0):
                    continue
                J.count("samples encoded")
                seen += 1
                # the part of the sample that is kept is its low-order end
                if l[0] == "m" or l[3] != w or l[4] != ("be" if be else "le") or l[2] not in (0, iw - w if big else 0):
                    J.bad(i, "encode", "%s host, %sswapped: an encoded sample is put together from the wrong bytes of its input" % (
                        "big-endian" if big else "little-endian", "" if sw else "not "))
    B.events(ev)
    if not seen:
        J.lost.append("no encoded sample of msr_encode_%s was found" % name)


# ---------------------------------------------------------------------------------------------------------------- all of them
def jobs():
    r = []
    for big in (False, True):
        for e in CODES:
            r.append(("recorded", "msr3_unpack_mseed3", 3, "le", big, e, None))
        for o in ("le", "be"):
            r.append(("recorded", "msr3_unpack_mseed2", 2, o, big, 3, None))
            for b in (0, 1):
                r.append(("recorded", "msr3_unpack_mseed2", 2, o, big, 3, b))
        for fn in ("msr3_unpack_data", "mstl3_unpack_recordlist"):
            r.append(("passed", fn, big))
        r.append(("requested", "msr3_pack_mseed3", 3, big))
        r.append(("requested", "msr3_pack_mseed2", 2, big))
        for n in list(FIXED) + list(SAMPLE16) + ["steim1", "steim2"]:
            for sw in (0, 1):
                r.append(("decoder", n, big, sw, False))
                r.append(("decoder", n, big, sw, True))
        for n in ("steim1", "steim2"):
            r.append(("steim", n, big))
        for n in list(FIXED) + ["steim1", "steim2"]:
            for sw in (0, 1):
                r.append(("encoder", n, big, sw))
    return r


_P = None


def _job(job):
    J = Out(job)
    try:
        globals()[job[0]](_P, J, *job[1:])
    except AttributeError as e:
        if "NoneType" not in str(e):
            raise
        J.lost.append("%s could not be followed (%s)" % (job, e))
    return J


def run(P, R):
    global _P
    _P = P
    if getattr(P, "objinit", None) is None:
        P.objinit = F.initobject(P)
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for J in pool.imap_unordered(_job, jobs(), chunksize=1):
            R.count("payload_cases_interpreted")
            for k, v in J.n.items():
                R.count(k.replace(" ", "_"), v)
            for key, text in J.out:
                R.violation(key, text)
            for t in J.lost:
                R.undecided(t)
