"""The cases under which the routines that read, print and write records are interpreted, and the tables of what belongs where:
which record field goes to which member, header path or printed label, and which value is written to which record field."""
import os, re
from multiprocessing import Pool
from . import bits, ir, layout, model
from . import format as F

BT = ("year", "day", "hour", "minute", "second", "fract")
CAL = {"begintime": BT}
# destination: record fields (b. = of the blockette); what must reach it, per blockette type
V3TO = {"record.flags": ("flags",), "record.starttime": ("year", "day", "hour", "minute", "second", "nanosecond"), "record.encoding": ("encoding",),
        "record.samprate": ("samplerate",), "record.samplecnt": ("numsamples",), "record.crc": ("crc",), "record.pubversion": ("pubversion",),
        "record.extralength": ("extralength",), "record.datalength": ("datalength",), "copy.sid": ("len:sidlength",)}
V2TO = {"record.samprate": ("ratefactor", "ratemultiplier"), "record.samplecnt": ("numsamples",), "record.starttime": BT + ("timecorrection",),
        "record.datalength": ("dataoffset",), "header./FDSN/Time/Correction": ("timecorrection",)}
ED, CA, TE = "MSEHEventDetection.", "MSEHCalibration.", "MSEHTimingException."


def _b(**k):
    return {n: tuple("b." + x for x in (v if isinstance(v, tuple) else (v,))) for n, v in k.items()}


def _p(p, d):
    return {p + k: v for k, v in d.items()}


EVENT = dict(signalamplitude="amplitude", signalperiod="period", backgroundestimate="background", detector="detector", onsettime=BT)
BLKTO = {
    100: {"record.samprate": ("b.samplerate",)},
    200: _p(ED, _b(**EVENT)),
    201: _p(ED, _b(medlookback="lookback", medpickalgorithm="pickalgorithm", medsnr=tuple("snr" + ("+%d" % k if k else "") for k in range(6)), **EVENT)),
    300: _p(CA, _b(begintime=BT, steps="steps", duration="duration", stepbetween="interval", amplitude="amplitude", inputchannel="inputchannel",
                   refamplitude="refamplitude", coupling="coupling", rolloff="rolloff")),
    310: _p(CA, _b(begintime=BT, duration="duration", sineperiod="period", amplitude="amplitude", inputchannel="inputchannel", refamplitude="refamplitude",
                   coupling="coupling", rolloff="rolloff")),
    320: _p(CA, _b(begintime=BT, duration="duration", amplitude="amplitude", inputchannel="inputchannel", refamplitude="refamplitude", coupling="coupling",
                   rolloff="rolloff", noise="noise")),
    390: _p(CA, _b(begintime=BT, duration="duration", amplitude="amplitude", inputchannel="inputchannel")),
    395: _p(CA, _b(endtime=BT)),
    500: {**_p(TE, _b(time=BT + ("microsecond",), vcocorrection="vcocorrection", receptionquality="receptionquality", count="count", type="exceptiontype",
                      clockstatus="clockstatus")), "header./FDSN/Clock/Model": ("b.clockmodel",)},
    1000: {"record.encoding": ("b.encoding",), "record.reclen": ("b.reclen",)},
    1001: {"header./FDSN/Time/Quality": ("b.timingquality",), "record.starttime": ("b.microsecond",)},
}
# destinations that may also depend on other fields of the record
MAY = {"record.datalength": {"b.reclen"}, "record.reclen": {"b.reclen"}, "record.extralength": None, "record.starttime": {"b.microsecond"},
       "record.samprate": {"b.samplerate"}}

T = list(BT) + ["unused"]
PRINT = {
    2: {"sequence number": ["sequence+%d" % k if k else None for k in range(6)], "data quality indicator": ["quality"], "reserved": ["reserved"],
        "station code": ["station"] + ["station+%d" % k for k in range(1, 5)], "location ID": ["location", "location+1"],
        "channel codes": ["channel", "channel+1", "channel+2"], "network code": ["network", "network+1"], "start time": T, "number of samples": ["numsamples"],
        "sample rate factor": ["ratefactor", "ratefactor|ratemultiplier"], "sample rate multiplier": ["ratemultiplier"], "number of blockettes": ["numblockettes"],
        "time correction": ["timecorrection"], "data offset": ["dataoffset"], "first blockette offset": ["blocketteoffset"]},
    3: {"start time": ["year", "day", "hour", "minute", "second", "nanosecond"], "sample rate+/period-": ["samplerate"], "data encoding": ["encoding"],
        "publication version": ["pubversion"], "number of samples": ["numsamples"], "CRC": ["crc"], "length of identifier": ["sidlength"],
        "length of extra headers": ["extralength"], "length of data payload": ["datalength"]},
    100: {"actual sample rate": ["samplerate"], "reserved bytes (3)": ["reserved", "reserved+1", "reserved+2"]},
    200: {"signal amplitude": ["amplitude"], "signal period": ["period"], "background estimate": ["background"], "reserved byte": ["reserved"],
          "signal onset time": T, "detector name": ["detector"]},
    201: {"signal amplitude": ["amplitude"], "signal period": ["period"], "background estimate": ["background"], "reserved byte": ["reserved"],
          "signal onset time": T, "loopback value": ["lookback"], "pick algorithm": ["pickalgorithm"], "detector name": ["detector"]},
    300: {"calibration start time": T, "number of calibrations": ["steps"], "step duration": ["duration"], "interval duration": ["interval"],
          "signal amplitude": ["amplitude"], "input signal channel": ["inputchannel"], "reserved byte": ["reserved"], "reference amplitude": ["refamplitude"],
          "coupling": ["coupling"], "rolloff": ["rolloff"]},
    310: {"calibration start time": T, "reserved byte": ["reserved1", "reserved"], "calibration duration": ["duration"], "signal period": ["period"],
          "signal amplitude": ["amplitude"], "input signal channel": ["inputchannel"], "reference amplitude": ["refamplitude"], "coupling": ["coupling"],
          "rolloff": ["rolloff"]},
    320: {"calibration start time": T, "reserved byte": ["reserved1", "reserved"], "calibration duration": ["duration"], "peak-to-peak amplitude": ["amplitude"],
          "input signal channel": ["inputchannel"], "reference amplitude": ["refamplitude"], "coupling": ["coupling"], "rolloff": ["rolloff"], "noise type": ["noise"]},
    390: {"calibration start time": T, "reserved byte": ["reserved1", "reserved"], "calibration duration": ["duration"], "signal amplitude": ["amplitude"],
          "input signal channel": ["inputchannel"]},
    395: {"calibration end time": T, "reserved bytes (2)": ["reserved", "reserved+1"]},
    400: {"beam azimuth (degrees)": ["azimuth"], "beam slowness (sec/degree)": ["slowness"], "configuration": ["configuration"],
          "reserved bytes (2)": ["reserved", "reserved+1"]},
    405: {"first delay value": ["delay"]},
    500: {"VCO correction": ["vcocorrection"], "time of exception": T, "usec": ["microsecond"], "reception quality": ["receptionquality"],
          "exception count": ["count"], "exception type": ["exceptiontype"], "clock model": ["clockmodel"], "clock status": ["clockstatus"]},
    1000: {"encoding": [None, "encoding"], "byte order": [None, "byteorder"], "record length": ["reclen", "reclen"], "reserved byte": ["reserved"]},
    1001: {"timing quality": ["timingquality"], "micro second": ["microsecond"], "reserved byte": ["reserved"], "frame count": ["framecount"]},
    2000: {"blockette length": ["length"], "data offset": ["dataoffset"], "record number": ["recnum"], "byte order": [None, "byteorder"],
           "number of headers": ["numheaders"], "headers": ["dataoffset", None]},
}
for _t in F.BLK:
    PRINT[_t]["next blockette"] = ["next"]

# record field: sources of what is written (None: not compared)
TM = {k: {"time." + k} for k in ("year", "day", "hour", "minute", "second", "nanosecond")}
W3 = {**TM, "flags": {"msr.flags"}, "encoding": {"msr.encoding"}, "samplerate": {"msr.samprate"}, "pubversion": {"msr.pubversion"},
      "sidlength": {"call:strlen", "msr.sid"}, "extralength": {"msr.extralength"}}
TB = {"year": {"time.year"}, "day": {"time.day"}, "hour": {"time.hour"}, "minute": {"time.minute"}, "second": {"time.second"}, "fract": {"time.nanosecond"}}
W2 = {**TB, "quality": {"path:/FDSN/DataQuality", "msr.pubversion"}, "station": {"sid.station"}, "location": {"sid.location"}, "channel": {"sid.channel"},
      "network": {"sid.network"}, "ratefactor": {"call:msr3_sampratehz", "msr.samprate"}, "ratemultiplier": {"call:msr3_sampratehz", "msr.samprate"},
      "timecorrection": {"path:/FDSN/Time/Correction"}, "activityflags": None, "ioflags": None, "qualityflags": None, "numblockettes": None, "numsamples": None,
      "dataoffset": None, "blocketteoffset": None, "sequence": None}
WCAL = {**{k: v for k, v in TB.items()}, "duration": {"path:/Duration"}, "amplitude": {"path:/Amplitude"}, "inputchannel": {"path:/InputChannel"}}
WREF = {"refamplitude": {"path:/ReferenceAmplitude"}, "coupling": {"path:/Coupling"}, "rolloff": {"path:/Rolloff"}}
WEV = {**TB, "amplitude": {"path:/SignalAmplitude"}, "period": {"path:/SignalPeriod"}, "background": {"path:/BackgroundEstimate"}, "detector": {"path:/Detector"}}
WB = {
    100: {"samplerate": {"msr.samprate"}},
    200: WEV,
    201: {**WEV, "lookback": {"path:/MEDLookback"}, "pickalgorithm": {"path:/MEDPickAlgorithm"}, "snr": None},
    300: {**WCAL, **WREF, "steps": {"path:/Steps"}, "interval": {"path:/StepBetween"}},
    310: {**WCAL, **WREF, "period": {"path:/SinePeriod"}},
    320: {**WCAL, **WREF, "noise": {"path:/Noise"}},
    390: WCAL,
    395: TB,
    500: {**TB, "vcocorrection": {"path:/VCOCorrection"}, "microsecond": {"time.nanosecond"}, "receptionquality": {"path:/ReceptionQuality"}, "count": {"path:/Count"},
          "exceptiontype": {"path:/Type"}, "clockmodel": {"path:/FDSN/Clock/Model"}, "clockstatus": {"path:/ClockStatus"}},
    1000: {"encoding": {"msr.encoding"}, "reclen": None, "byteorder": None},
    1001: {"timingquality": {"path:/FDSN/Time/Quality"}, "microsecond": {"time.nanosecond"}, "framecount": None},
}
for _t in WB:
    WB[_t] = {**WB[_t], "type": None, "next": None, "flags": None}
TEXTS = {"STEP": 300, "SINE": 310, "PSEUDORANDOM": 320, "GENERIC": 390, "MURDOCK": 201}


def jobs():
    r = []
    for big in (False, True):
        for fn in ("msr3_unpack_mseed3", "ms_parse_raw3", "ms3_detect"):
            r.append(("read", fn, 3, "le", big, None))
        for o in ("le", "be"):
            r.append(("read", "ms2_recordsid", 2, o, big, None))
            for t in F.BLK:
                for fn in ("msr3_unpack_mseed2", "ms_parse_raw2", "ms3_detect"):
                    r.append(("read", fn, 2, o, big, t))
        for t in TEXTS:
            r.insert(0, ("write", "msr3_pack_header2", 2, "be", big, t))
        r.append(("write", "msr3_pack_header3", 3, "le", big, None))
        r.append(("write", "msr3_repack_mseed3", 3, "le", big, None))
        r.append(("write", "msr3_pack_mseed3", 3, "le", big, None))
        r.append(("write", "msr3_pack_mseed2", 2, "be", big, None))
    return r


_P = None


def _job(job):
    kind, fn, ver, order, big, sub = job
    f = _P.fn(fn)
    if f is None:
        return job, None, {}, {}
    J = (read if kind == "read" else write)(_P, f, ver, order, big, sub)
    return job, J.out, J.n, J.seen


def run(P, R, what):
    """interpret every case; report the findings of one kind"""
    global _P
    _P = P
    _P.objinit = F.initobject(P)
    seen = {}
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for job, out, n, s in pool.imap_unordered(_job, jobs(), chunksize=1):
            if out is None:
                R.undecided("%s is not in the analysed source" % job[1])
                continue
            R.count("cases_interpreted")
            for k, v in n.items():
                R.count(k.replace(" ", "_"), v)
            R.sample("%s, %s host, %s record%s" % (job[1], "big-endian" if job[4] else "little-endian", job[3], ", %s" % job[5] if job[5] else ""))
            for w, key, text in out:
                if w == what:
                    R.violation(key, text)
            for k, v in s.items():
                seen.setdefault(k, set()).update(v)
    return seen


# ---------------------------------------------------------------------------------------------------------------- reading
def read(P, f, ver, order, big, blk):
    name = f.name
    C = F.Case(P, big, order, blk, rec=("a", 0), version=ver, obj=P.objinit, force={0: 77, 1: 83, 2: 3} if ver == 3 else {0: 0x30},
               bind={3: bits.const(255, 8)} if name == "ms_parse_raw2" else None)
    B = C.run(f)
    J = layout.Judge(P, f, C)
    J.seen = {}
    layout.judge_reads(J, B, alt=name == "ms3_detect")
    layout.judge_copies(J, B)
    obs = layout.observe(J, B)
    if name.startswith("msr3_unpack"):
        stored(J, obs, dict(V3TO if ver == 3 else V2TO), BLKTO.get(blk, {}) if ver == 2 else {})
    if name.startswith("ms_parse_raw"):
        printed(J, obs, ver, blk)
    times(J, obs)
    return J


def stored(J, obs, to, bto):
    got, at = {}, {}
    for i, d, s in obs:
        if d.startswith("print.") or d.startswith("time."):
            continue
        got.setdefault(d, set()).update(s)
        at.setdefault(d, i)
    want = {d: set(w) for d, w in to.items()}
    for d, w in bto.items():
        want.setdefault(d, set()).update(w)
    for d, w in want.items():
        J.count("destinations compared")
        g = got.get(d, set())
        i = at.get(d) or J.f.blocks[0].insts[0]
        miss = w - g
        if miss:
            J.bad("place", i, "missing:%s" % d, "%s does not receive %s" % (d, ", ".join("'%s'" % x for x in sorted(miss))))
    for d, g in got.items():
        m = MAY.get(d, set())
        if m is None or not (d in want or d.startswith(("MSEH", "header.", "record."))):
            continue
        extra = g - want.get(d, set()) - m
        if d in ("record.datalength",) or d == "copy.sid":
            extra = {x for x in extra if not x.startswith("len:")}
        if extra:
            J.bad("place", at[d], "wrong:%s" % d, "%s receives %s" % (d, ", ".join("'%s'" % x for x in sorted(extra))))


def times(J, obs):
    """each part of a time goes to its own argument of the conversion, all from the same time field"""
    calls = {}
    for i, d, s in obs:
        if d.startswith("time."):
            calls.setdefault(i.id, (i, {}))[1][d[5:]] = s
    for i, a in calls.values():
        if not any(a.values()):
            continue
        J.count("time conversions")
        for k, s in a.items():
            for n in s:
                x = n[2:] if n.startswith("b.") else n
                ok = x == k or k == "fract" and x in ("nanosecond", "microsecond")
                if not ok:
                    J.bad("place", i, "time:%s:%s" % (k, n), "field '%s' is used as the %s of a time" % (n, k))
            if not s and k != "fract":
                J.bad("place", i, "time:%s:none" % k, "the %s of a time does not come from the record" % k)
        if len({n.startswith("b.") for s in a.values() for n in s}) > 1:
            J.bad("place", i, "time:mixed", "a time is put together from the fixed header and a blockette")


def label(fmt):
    lab = fmt[6:].split(":")[0].strip()
    return lab if ":" in fmt and "%" not in lab else None


def printed(J, obs, ver, blk):
    hit = set()
    for i, d, s in obs:
        if not d.startswith("print."):
            continue
        lab = label(d)
        if not lab:
            continue
        isb = any(x.startswith("b.") for t in s for x in t)
        tab = PRINT[3 if ver == 3 else blk if isb else 2]
        if lab not in tab:
            continue
        got = ["|".join(x[2:] if x.startswith("b.") else x for x in t) or None for t in s]
        w = tab[lab]
        J.count("printed values compared", len(got))
        if lab == "reserved byte" and len(got) == 1:
            ok = got[0] in w
        else:
            ok = got == w
        if not ok:
            J.bad("place", i, "print:%s" % lab, "'%s' prints %s, specified: %s" % (lab, ", ".join(map(str, got)), ", ".join(map(str, w))))
        hit |= {(isb, n) for g in got if g for n in g.split("|")}
    # every field is printed
    for isb, tab in ((False, F.V3 if ver == 3 else F.V2), (True, F.BLK[blk][0] if blk else {})):
        for o, (nm, w, t) in tab.items():
            if nm.startswith(("reserved", "unused")) or nm.endswith("flags") or nm in ("flags", "type", "indicator", "formatversion", "sequence", "snr", "dataoffset", "sidlength", "sid") \
                    or nm.startswith("unused"):
                continue
            if not any(b == isb and (x == nm or x.startswith(nm + "+")) for b, x in hit):
                J.bad("place", J.f.blocks[0].insts[0], "unprinted:%s%s" % ("b." if isb else "", nm), "field '%s'%s is not printed" % (nm, " of the blockette" if isb else ""))


# ---------------------------------------------------------------------------------------------------------------- writing
def write(P, f, ver, order, big, text):
    name = f.name

    def calls(X, i, c, a):
        if text and c == "yyjson_ptr_get_str" and P.gstring(i.args[1]) == "/Type":
            return bits.const(1, 8)
        return None
    C = F.Case(P, big, order, None, rec=("a", 1), version=ver, obj=P.objinit, text=text, calls=calls)
    B = C.run(f)
    J = layout.Judge(P, f, C)
    J.seen = {}
    roots = [("a", 1)] if not name.startswith("msr3_pack_mseed") else [("n", i.id) for b in f.blocks for i in b.insts if i.op == "call" and model.callee(i) == "mem:malloc"]
    allw = [(r, w) for r in roots for w in layout.writes(J, B, r)]
    if len(roots) > 1:
        # the record buffer is the one whose header is written
        head = {r for r, (i, x, o, n, v, s) in allw if x == r and o in (24, 28, 30, 36, 44) and v is not None}
        allw = [(r, w) for r, w in allw if r in head]
    tab = F.V3 if ver == 3 else F.V2
    hlen = F.V3LEN if ver == 3 else F.V2LEN
    # blockettes by the type stored at their start
    base = {}
    for r, (i, x, o, n, v, s) in allw:
        if ver != 2 or n != 2 or v is None:
            continue
        for z in B.alts(v):
            c = bits.cval(z)
            if c is not None:
                c = c if (order == "be") == big else (c & 255) << 8 | c >> 8
                if c in F.BLK and (x != r and o == 0 or x == r and o >= hlen and c in (100, 1000, 1001)):
                    base.setdefault((x, o), set()).add(c)
                elif (c & 255) << 8 | c >> 8 in F.BLK and (x != r and o == 0 or x == r and o >= hlen):
                    J.bad("order", i, "type-order", "a blockette type is written %s although the record is in %s order" % (
                        "in the host's order" if (order == "be") != big else "byte-swapped", layout.ORD[order]))
    seen = J.seen
    # a store through a pointer to one of several links, some of them of blockettes whose position is not a constant
    nexts = {i.id for r, (i, x, o, n, v, s) in allw if any(o - b == 2 for (y, b) in base if y == x) and n == 2}
    for r, (i, x, o, n, v, s) in allw:
        if x == r and o < hlen:
            fl = layout.field(tab, o, 1)
            at = [(tab, o, W3 if ver == 3 else W2, "h", 0)]
        elif x == r:
            at = [(F.BLK[t][0], o - b, WB.get(t, {}), t, b) for (y, b), ts in base.items() if y == x and b <= o for t in ts if o - b < (F.BLK[t][1] or 16)]
        else:
            at = [(F.BLK[t][0], o, WB.get(t, {}), t, 0) for t in base.get((x, 0), ())]
            if not at:
                if ver == 2 and n == 2 and v is not None:
                    for z in B.alts(v):
                        l = bits.leaf(z) if z is not None and z[0] == "b" else None
                        if l and l[0] not in ("c", "m"):
                            J.count("byte orders")
                            if layout.swapped(J, l) != ((order == "be") != big):
                                J.bad("order", i, "link-order", "a link to a blockette is written %s although the record is in %s order" % (
                                    "byte-swapped" if layout.swapped(J, l) else "in the host's order", layout.ORD[order]))
                continue            # link to the next blockette, identifier, payload
        if n is None:
            continue
        res = []
        for tb, off, wt, t, b in at:
            J.count("writes compared")
            pr = []
            fl = layout.field(tb, off, 1)
            whole = v is None and (s == {"fill"} or off == 0)
            if fl is None:
                pr.append(("place", "field:%s:%d" % (t, off), "%d bytes are written at offset %d%s, where the specification has no field" % (n, off, of(t))))
            elif not whole and fl[3] != "c" and (off != fl[0] or n != fl[2]) or fl[3] == "c" and n > fl[0] + fl[2] - off and not whole:
                pr.append(("place", "width:%s:%d" % (t, off), "%d bytes are written at offset %d%s, which belongs to '%s' (%d bytes from offset %d)" % (
                    n, off, of(t), fl[1], fl[2], fl[0])))
            elif v is None and not whole and (fl[0] != off or n != fl[2]):
                pr.append(("place", "width:%s:%d" % (t, off), "%d bytes of text are written at offset %d%s, which belongs to '%s' (%d bytes from offset %d)" % (
                    n, off, of(t), fl[1], fl[2], fl[0])))
            else:
                nm = fl[1]
                # what is computed from a value that was there before is not a new source
                src = {q for q in s if q not in ("fill",) and not q.startswith(("text:", "call:llvm", "call:mem"))}
                w = wt.get(nm)
                if name in ("msr3_pack_header2", "msr3_pack_header3"):
                    if w is not None and src and not src & w:
                        pr.append(("place", "source:%s:%s" % (t, nm), "field '%s'%s is written from %s, expected %s" % (nm, of(t), names(src), names(w))))
                    elif w is not None and src - w:
                        pr.append(("place", "source:%s:%s" % (t, nm), "field '%s'%s is written from %s, expected %s" % (nm, of(t), names(src), names(w))))
                    if src and not pr:
                        seen.setdefault((name, t), set()).add(nm)
                elif nm in ("year", "day", "hour", "minute", "second", "nanosecond", "fract") and src:
                    w = (W3 if ver == 3 else TB)[nm]
                    if src - w:
                        pr.append(("place", "source:%s:%s" % (t, nm), "field '%s' is written from %s, expected %s" % (nm, names(src), names(w))))
                if v is not None and fl[2] > 1 and fl[3] != "c":
                    J.count("byte orders")
                    for z in B.alts(v):
                        if z is None or z[0] != "b":
                            continue
                        l = bits.leaf(z)
                        if l[0] == "m":
                            pr.append(("place", "mixed:%s:%s" % (t, nm), "the value written to field '%s'%s is put together from parts" % (nm, of(t))))
                        elif l[0] == "c":
                            continue
                        elif layout.swapped(J, l) != ((order == "be") != big):
                            pr.append(("order", "order:%s:%s" % (t, nm), "field '%s'%s is written %s although the record is in %s order" % (
                                nm, of(t), "byte-swapped" if layout.swapped(J, l) else "in the host's order", layout.ORD[order])))
            res.append(pr)
        if res and not any(not p for p in res) and not (i.id in nexts and not any(y == x and o - b == 2 for (y, b) in base)):
            for what, key, txt in res[0]:
                J.bad(what, i, key, txt)
    if name.startswith("msr3_pack_mseed") or name.startswith("msr3_repack"):
        payload(J, B, allw, ver)
    links(J, B, allw, base, order, big)
    return J


def of(t):
    return " of blockette %s" % t if t != "h" else ""


def names(s):
    return ", ".join(sorted(s))


def payload(J, B, allw, ver):
    """the recorded payload length is the number of payload bytes, the recorded sample count is not"""
    lens = set()
    for r, (i, x, o, n, v, s) in allw:
        if v is None and x != r and not (s & {"fill"}):
            g = B.get(i.args[2])
            if g is not None:
                lens.add(frozenset(B.leaves(g, own=True)))
    for r, (i, x, o, n, v, s) in allw:
        if x != r or v is None or bits.cval(v) is not None or not lens:
            continue
        g = frozenset(B.leaves(v, own=True))
        if ver == 3 and o == 36:
            J.count("payload lengths")
            if g not in lens:
                J.bad("place", i, "payload-length", "the payload length written is not the number of bytes copied as payload")
        if (ver == 3 and o == 24 or ver == 2 and o == 30) and g in lens:
            J.bad("place", i, "sample-count", "the number of samples written is the number of payload bytes")


def links(J, B, allw, base, order, big):
    """constants with a meaning: indicator, format version, blockette positions, byte order of the payload"""
    for r, (i, x, o, n, v, s) in allw:
        if v is None:
            continue
        cs = [bits.cval(z) for z in B.alts(v)]
        if x == r and J.case.version == 3 and J.f.name == "msr3_pack_header3" and o in (0, 1, 2):
            J.count("constants compared")
            if cs != [{0: 77, 1: 83, 2: 3}[o]]:
                J.bad("place", i, "constant:%d" % o, "byte %d of the record is not the one that identifies version 3" % o)
        if x == r and J.case.version == 2 and J.f.name == "msr3_pack_header2" and o in (46, 50, 58):
            # every link is the position of a blockette written
            pos = {b for (y, b) in base if y == r}
            for c in cs:
                if c is None or c == 0:
                    continue
                c = c if (order == "be") == big else (c & 255) << 8 | c >> 8
                J.count("constants compared")
                if c not in pos and (c & 255) << 8 | c >> 8 in pos:
                    J.bad("order", i, "link:%d" % o, "a link to the blockette at offset %d is written in the wrong byte order" % ((c & 255) << 8 | c >> 8))
                elif c not in pos:
                    J.bad("place", i, "link:%d" % o, "a link to a blockette at offset %d is written, but none is written there" % c)
        if x == r and J.case.version == 2 and any(y == r and 1000 in ts and o == b + 5 for (y, b), ts in base.items()) and J.f.name == "msr3_pack_header2":
            J.count("constants compared")
            if any(c is not None and c != 1 for c in cs):
                J.bad("order", i, "b1000-order", "the byte order recorded in blockette 1000 is not big-endian")
