"""F07: the initialisers of the built-in constant tables, read from the program's
intermediate representation, equal tables recomputed here from their definitions."""
import datetime
from .. import ir, model, report, build


def ints(g, c=None, unsigned=None):
    """flatten an initialiser to a list of integers (None for anything else)"""
    out = []

    def walk(c):
        k = c["k"]
        if k == "int":
            out.append(int(c["u"]) if "u" in c else c["v"])
        elif k == "str":
            out.extend(c["b"])
        elif k in ("arr", "struct"):
            for e in c["e"]:
                walk(e)
        elif k == "fp":
            out.append(float(c["s"]))
        else:
            out.append(None)
    i = g.get("init")
    if not i:
        return []
    if i["k"] == "zero":
        return []
    walk(i)
    return out


def crc_tables():
    poly = 0x82F63B78
    t = [[0] * 256 for _ in range(8)]
    for n in range(256):
        c = n
        for _ in range(8):
            c = (c >> 1) ^ poly if c & 1 else c >> 1
        t[0][n] = c
    for k in range(1, 8):
        for n in range(256):
            c = t[k - 1][n]
            t[k][n] = (c >> 8) ^ t[0][c & 0xff]
    return [x for r in t for x in r]


LEAPDATES = [(1972, 1), (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1),
             (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7),
             (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
M = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
ML = [31, 29] + M[2:]


def cum(m):
    o, s = [], 0
    for x in m:
        o.append(s)
        s += x
    return o


def pow10sig():
    out = []
    for e in range(-343, 325):
        if e >= 0:
            v = 10 ** e
            b = v.bit_length()
            s = v << (128 - b) if b <= 128 else v >> (b - 128)
        else:
            d = 10 ** (-e)
            # floor(2^k / d) with 128 significant bits
            k = 127 + d.bit_length()
            s = (1 << k) // d
            if s.bit_length() > 128:
                s >>= s.bit_length() - 128
            elif s.bit_length() < 128:
                s = (1 << (k + 1)) // d
        out += [s >> 64, s & (2 ** 64 - 1)]
    return out


def chartab(f):
    return [f(i) for i in range(256)]


def utf8_dfa_step(st, b):
    """canonical UTF-8 acceptor: state = tuple of remaining (lo,hi) ranges, None = reject"""
    C = (0x80, 0xbf)
    if st is None:
        return None
    if st:
        lo, hi = st[0]
        return st[1:] if lo <= b <= hi else None
    if b < 0x80:
        return ()
    if 0xc2 <= b <= 0xdf:
        return (C,)
    if b == 0xe0:
        return ((0xa0, 0xbf), C)
    if b == 0xed:
        return ((0x80, 0x9f), C)
    if 0xe1 <= b <= 0xef:
        return (C, C)
    if b == 0xf0:
        return ((0x90, 0xbf), C, C)
    if 0xf1 <= b <= 0xf3:
        return (C, C, C)
    if b == 0xf4:
        return ((0x80, 0x8f), C, C)
    return None


def check_utf8(R, g):
    t = ints(g)
    seen = set()
    st = [(0, ())]
    while st:
        s, c = st.pop()
        if (s, c) in seen:
            continue
        seen.add((s, c))
        R.count("automaton state pairs")
        if (s == 0) != (c == ()):
            R.violation("utf8:%d" % s, "%s: UTF-8 automaton state %d does not correspond to the UTF-8 definition" % (g["name"], s))
            return
        if c is None:
            if s != 1:
                R.violation("utf8:reject", "%s: UTF-8 automaton does not reject an invalid sequence (state %d)" % (g["name"], s))
                return
            for b in range(256):
                if t[256 + 16 + t[b]] != 1:
                    R.violation("utf8:rejectstate", "%s: UTF-8 automaton leaves the reject state" % g["name"])
                    return
            continue
        for b in range(256):
            ty = t[b]
            if ty > 15 or 256 + s * 16 + ty >= len(t):
                R.violation("utf8:type", "%s: byte class of 0x%02x out of range" % (g["name"], b))
                return
            st.append((t[256 + s * 16 + ty], utf8_dfa_step(c, b)))


def check():
    R = report.Report("F07")
    P = ir.load()
    R.rule("each reference table is recomputed from its definition; the constant global of the same element count that agrees with most entries is the table; every entry must be equal")
    glob = []
    for g in P.globals.values():
        if not g.get("file") or g["file"] == "msi.c" or g["decl"]:
            continue
        v = ints(g)
        if len(v) >= 2:
            glob.append((g, v))
    esc = "\b\t\n\f\r"
    refs = [
        ("CRC-32C slicing tables (Castagnoli polynomial 0x1EDC6F41, reflected)", crc_tables(), True, 8, 1),
        ("days per month, common year", M, True, 12, 1),
        ("days per month, leap year", ML, True, 12, 1),
        ("days per month, both year kinds", M + ML, True, 12, 1),
        ("days before month, both year kinds", cum(M) + cum(ML), True, 12, 1),
        ("length of year", [365, 366], True, 1, 1),
        ("128-bit powers of ten", pow10sig(), True, 8, 1),
        ("64-bit powers of ten", [10 ** i for i in range(20)], True, 8, 1),
        ("exact double powers of ten", [float(10 ** i) for i in range(23)], True, 8, 1),
        ("decimal digit pairs", [ord(c) for i in range(100) for c in "%02d" % i], True, 1, 1),
        ("hexadecimal digit values", chartab(lambda c: int(chr(c), 16) if chr(c) in "0123456789abcdefABCDEF" else 0xf0), True, 1, 1),
        ("hexadecimal byte pairs", [ord(c) for i in range(256) for c in "%02X" % i], True, 1, 1),
        ("decimal trailing zeros", [2 if i == 0 else (1 if i % 10 == 0 else 0) for i in range(100)], True, 1, 1),
    ]
    found = 0
    for name, ref, req, _, _ in refs:
        best = None
        for g, v in glob:
            if len(v) != len(ref):
                continue
            same = sum(1 for a, b in zip(v, ref) if a == b)
            if best is None or same > best[0]:
                best = (same, g, v)
        if best is None or best[0] * 2 < len(ref):
            if name.startswith(("CRC", "days per month, both", "days before")):
                raise build.AnalysisError("table not found: " + name)
            R.assume("table not present in this tree: " + name)
            continue
        same, g, v = best
        found += 1
        R.count("tables")
        R.count("entries", len(ref))
        R.sample("%s: %s (%s), %d entries" % (name, g["name"], g["file"], len(ref)))
        for n, (a, b) in enumerate(zip(v, ref)):
            if a != b:
                R.violation("table:%s" % g["name"], "%s (%s:%s): entry %d is %s, the definition of '%s' gives %s" % (g["name"], g["file"], g.get("line"), n, a, name, b))
                break
    # every month table in the library must be one of the two calendars, wherever it is
    for g, v in glob:
        if len(v) == 12 and all(isinstance(x, int) and 28 <= x <= 31 for x in v):
            R.count("month tables")
            if v not in (M, ML):
                R.violation("months:%s" % g["name"], "%s (%s:%s): month lengths %s are not those of the Gregorian calendar" % (g["name"], g["file"], g.get("line"), v))
    # leap seconds
    base = datetime.date(1970, 1, 1)
    want = [((datetime.date(y, m, 1) - base).days * 86400 * 10 ** 9, 10 + n) for n, (y, m) in enumerate(LEAPDATES)]
    ls = [g for g in P.globals.values() if "struct.LeapSecond" in g["ty"] and g["ty"].startswith("[")]
    if not ls:
        raise build.AnalysisError("embedded leap second list not found")
    for g in ls:
        R.count("tables")
        ents = []
        for n, e in enumerate(g["init"]["e"]):
            if e["k"] != "struct":
                ents.append((0, 0, None))
                continue
            a, b, nx = e["e"][0], e["e"][1], e["e"][-1]
            ents.append((a.get("v", 0), b.get("v", 0), nx))
        sz = g["size"] // len(ents)
        R.count("entries", len(ents))
        for n, (t, d, nx) in enumerate(ents):
            if n < len(want) and (t, d) != want[n]:
                R.violation("leap:%d" % n, "%s (%s): leap second entry %d is (%d, %d), published value is (%d, %d)" % (g["name"], g["file"], n, t, d, want[n][0], want[n][1]))
            if n >= len(want) and (t <= ents[n - 1][0] or abs(d - ents[n - 1][1]) != 1):
                R.violation("leap:%d" % n, "%s: additional leap second entry %d is not in order" % (g["name"], n))
            last = n == len(ents) - 1
            if last and not (nx and nx["k"] == "null"):
                R.violation("leap:end", "%s: leap second list is not terminated" % g["name"])
            if not last and not (nx and nx["k"] == "gv" and nx["n"] == g["name"] and nx.get("o", 0) == (n + 1) * sz):
                R.violation("leap:link:%d" % n, "%s: leap second entry %d does not link to the following entry" % (g["name"], n))
        if len(ents) < len(want):
            R.violation("leap:count", "%s: %d leap seconds, published list has %d" % (g["name"], len(ents), len(want)))
        head = P.globals.get("leapsecondlist")
        if head and not (head.get("init", {}).get("k") == "gv" and head["init"]["n"] == g["name"] and head["init"].get("o", 0) == 0):
            R.violation("leap:head", "leap second list head does not start at the first embedded entry")
    # UTF-8 automaton
    u = [g for g, v in glob if len(v) == 400 and g["file"] == "genutils.c"]
    if not u:
        R.assume("UTF-8 automaton table not present in this tree")
    for g in u:
        R.count("tables")
        check_utf8(R, g)
    R.need("tables", 8)
    R.need("entries", 2000)
    R.level = "other"
    return R.finish()
