"""The record layouts of miniSEED 2.4 (SEED manual, fixed section of data header and data blockettes) and miniSEED 3 (FDSN
miniSEED 3 specification), and the cases under which functions that read or write them are interpreted."""
from . import bits, model

# offset: (name, bytes, type); type u unsigned, s two's complement, f IEEE floating point, c text or raw bytes
V3 = {0: ("indicator", 2, "c"), 2: ("formatversion", 1, "u"), 3: ("flags", 1, "u"), 4: ("nanosecond", 4, "u"), 8: ("year", 2, "u"), 10: ("day", 2, "u"),
      12: ("hour", 1, "u"), 13: ("minute", 1, "u"), 14: ("second", 1, "u"), 15: ("encoding", 1, "u"), 16: ("samplerate", 8, "f"),
      24: ("numsamples", 4, "u"), 28: ("crc", 4, "u"), 32: ("pubversion", 1, "u"), 33: ("sidlength", 1, "u"), 34: ("extralength", 2, "u"),
      36: ("datalength", 4, "u")}
V3LEN = 40

V2 = {0: ("sequence", 6, "c"), 6: ("quality", 1, "c"), 7: ("reserved", 1, "c"), 8: ("station", 5, "c"), 13: ("location", 2, "c"), 15: ("channel", 3, "c"),
      18: ("network", 2, "c"), 20: ("year", 2, "u"), 22: ("day", 2, "u"), 24: ("hour", 1, "u"), 25: ("minute", 1, "u"), 26: ("second", 1, "u"),
      27: ("unused", 1, "u"), 28: ("fract", 2, "u"), 30: ("numsamples", 2, "u"), 32: ("ratefactor", 2, "s"), 34: ("ratemultiplier", 2, "s"),
      36: ("activityflags", 1, "u"), 37: ("ioflags", 1, "u"), 38: ("qualityflags", 1, "u"), 39: ("numblockettes", 1, "u"), 40: ("timecorrection", 4, "s"),
      44: ("dataoffset", 2, "u"), 46: ("blocketteoffset", 2, "u")}
V2LEN = 48


def btime(o, p=""):
    return {o: (p + "year", 2, "u"), o + 2: (p + "day", 2, "u"), o + 4: (p + "hour", 1, "u"), o + 5: (p + "minute", 1, "u"), o + 6: (p + "second", 1, "u"),
            o + 7: (p + "unused", 1, "u"), o + 8: (p + "fract", 2, "u")}


HEAD = {0: ("type", 2, "u"), 2: ("next", 2, "u")}
# type: (fields, length)
BLK = {
    100: ({4: ("samplerate", 4, "f"), 8: ("flags", 1, "u"), 9: ("reserved", 3, "c")}, 12),
    200: ({4: ("amplitude", 4, "f"), 8: ("period", 4, "f"), 12: ("background", 4, "f"), 16: ("flags", 1, "u"), 17: ("reserved", 1, "u"), **btime(18), 28: ("detector", 24, "c")}, 52),
    201: ({4: ("amplitude", 4, "f"), 8: ("period", 4, "f"), 12: ("background", 4, "f"), 16: ("flags", 1, "u"), 17: ("reserved", 1, "u"), **btime(18), 28: ("snr", 6, "c"), 34: ("lookback", 1, "u"), 35: ("pickalgorithm", 1, "u"), 36: ("detector", 24, "c")}, 60),
    300: ({**btime(4), 14: ("steps", 1, "u"), 15: ("flags", 1, "u"), 16: ("duration", 4, "u"), 20: ("interval", 4, "u"), 24: ("amplitude", 4, "f"), 28: ("inputchannel", 3, "c"), 31: ("reserved", 1, "u"), 32: ("refamplitude", 4, "u"), 36: ("coupling", 12, "c"), 48: ("rolloff", 12, "c")}, 60),
    310: ({**btime(4), 14: ("reserved1", 1, "u"), 15: ("flags", 1, "u"), 16: ("duration", 4, "u"), 20: ("period", 4, "f"), 24: ("amplitude", 4, "f"), 28: ("inputchannel", 3, "c"), 31: ("reserved", 1, "u"), 32: ("refamplitude", 4, "u"), 36: ("coupling", 12, "c"), 48: ("rolloff", 12, "c")}, 60),
    320: ({**btime(4), 14: ("reserved1", 1, "u"), 15: ("flags", 1, "u"), 16: ("duration", 4, "u"), 20: ("amplitude", 4, "f"), 24: ("inputchannel", 3, "c"), 27: ("reserved", 1, "u"), 28: ("refamplitude", 4, "u"), 32: ("coupling", 12, "c"), 44: ("rolloff", 12, "c"), 56: ("noise", 8, "c")}, 64),
    390: ({**btime(4), 14: ("reserved1", 1, "u"), 15: ("flags", 1, "u"), 16: ("duration", 4, "u"), 20: ("amplitude", 4, "f"), 24: ("inputchannel", 3, "c"), 27: ("reserved", 1, "u")}, 28),
    395: ({**btime(4), 14: ("reserved", 2, "c")}, 16),
    400: ({4: ("azimuth", 4, "f"), 8: ("slowness", 4, "f"), 12: ("configuration", 2, "u"), 14: ("reserved", 2, "c")}, 16),
    405: ({4: ("delay", 2, "u")}, 6),
    500: ({4: ("vcocorrection", 4, "f"), **btime(8), 18: ("microsecond", 1, "s"), 19: ("receptionquality", 1, "u"), 20: ("count", 4, "u"), 24: ("exceptiontype", 16, "c"), 40: ("clockmodel", 32, "c"), 72: ("clockstatus", 128, "c")}, 200),
    1000: ({4: ("encoding", 1, "u"), 5: ("byteorder", 1, "u"), 6: ("reclen", 1, "u"), 7: ("reserved", 1, "u")}, 8),
    1001: ({4: ("timingquality", 1, "u"), 5: ("microsecond", 1, "s"), 6: ("reserved", 1, "u"), 7: ("framecount", 1, "u")}, 8),
    2000: ({4: ("length", 2, "u"), 6: ("dataoffset", 2, "u"), 8: ("recnum", 4, "u"), 12: ("byteorder", 1, "u"), 13: ("flags", 1, "u"), 14: ("numheaders", 1, "u")}, None),
}
for _t in BLK:
    BLK[_t][0].update(HEAD)

YEARS = (1900, 2047)            # a year in this range read in the wrong byte order is never a valid year


def initobject(P):
    """content of an MS3Record after msr3_init: {offset: bits} for the bytes that are the same on every return"""
    f = P.fn("msr3_init")
    res = []
    for big in (False,):
        B = bits.Bits(P, f, big=big, nonnull=True)

        def ev(i, mem):
            if i.op == "ret" and i.args:
                for p in B.alts(B.get(i.args[0])):
                    if p is not None and p[0] == "p":
                        res.append({o: B.bytebits(c) for o, c in mem.c.get(p[1], {}).items()})
        B.events(ev)
    out = {}
    for o in set.intersection(*[set(r) for r in res]) if res else ():
        v = {r[o] for r in res}
        if len(v) == 1:
            b = next(iter(v))
            if b is not None and all(x in (0, 1) for x in b):
                out[o] = b
    return out


class Case:
    """one case: host and record byte order, blockette type, forced flag bytes, forced texts"""
    nonnull = True          # pointer arguments are given

    def __init__(self, P, big, order, blk=None, rec=("a", 0), version=2, flags=None, text=None, obj=None, bind=None, force=None, calls=None, content=None, outs=None, wr=None):
        self.wr = wr
        self.P, self.big, self.order, self.blk, self.rec, self.version = P, big, order, blk, rec, version
        self.flags, self.text, self.obj, self.bind, self.force, self.calls_ = flags, text, obj or {}, bind, force or {}, calls
        self.outs = outs                  # what calls have stored: (('o', callee, id, argument), offset) -> byte
        self.content = content or {}      # (place, offset): byte, beyond the record

    def name(self):
        s = "%s host, %s-endian record" % ("big-endian" if self.big else "little-endian", "big" if self.order == "be" else "little")
        if self.blk:
            s += ", blockette %d" % self.blk
        if self.text is not None:
            s += ", type %s" % self.text
        return s

    def facts(self, l):
        if self.version == 2 and l[1] == self.rec and l[3] == 2:
            if l[2] == 20:
                return YEARS if l[4] == self.order else (0x6c07, 0xffff)
            if l[2] == 22 and l[4] == self.order:
                return (1, 366)
        return None

    def init(self, root, off):
        if root[0] == "o":
            v = self.outs(root, off) if self.outs else None
            return None if v is None else tuple(v >> k & 1 for k in range(8))
        v = self.content.get((root, off))
        if root[0] == "d" and root[1] == self.rec and ("blk", off) in self.content:
            v = self.content[("blk", off)]
        if v is not None:
            pass
        elif root[0] == "d" and root[1] == self.rec and self.blk and off in (0, 1):
            v = (self.blk >> 8 * (off if self.order == "le" else 1 - off)) & 255
        elif root == self.rec and off in self.force:
            v = self.force[off]
        elif root == self.rec and self.flags is not None and off in self.flags:
            v = self.flags[off]
        elif root[0] == "n" and root[1] in self.inits:
            return self.obj.get(off)
        elif root[0] == "*" and root[1][0] == "n" and root[1][1] in self.ctype:
            w = 0x800 if 0x30 <= off >> 1 <= 0x39 else 0        # isdigit(), the only class used on records
            v = w >> 8 * ((off & 1) ^ int(self.big)) & 255
        if v is None:
            return None
        return tuple(v >> k & 1 for k in range(8))

    def calls(self, X, i, c, a):
        if c == "ms_bigendianhost":
            return bits.const(int(self.big), 32)
        if self.text is not None and c in ("strncasecmp", "strcasecmp", "strncmp", "strcmp"):
            s = self.P.gstring(i.args[1]) if self.P.gstring(i.args[1]) is not None else self.P.gstring(i.args[0])
            if s is not None:
                return bits.const(0 if s == self.text else 1, 32)
        if self.calls_:
            return self.calls_(X, i, c, a)
        return None

    def run(self, f, once=False):
        self.inits = {i.id for b in f.blocks for i in b.insts if i.op == "call" and model.callee(i) == "msr3_init"}
        self.ctype = {i.id for b in f.blocks for i in b.insts if i.op == "call" and model.callee(i) == "__ctype_b_loc"}
        return bits.Bits(self.P, f, big=self.big, bind=self.bind, init=self.init, facts=self.facts, calls=self.calls, once=once, wr=self.wr, nonnull=self.nonnull)
