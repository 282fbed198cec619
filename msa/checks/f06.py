"""F06: for each of the 256 encoding values (and 128 sample type letters) conditional
constant propagation determines what each sibling routine does with it; the answers must
agree with each other."""
from .. import ir, model, report, build
from ..ir import Const, Inst, Arg
from ..sccp import SCCP, BOT, TOP


def proots(v, seen=None):
    """set of roots a pointer may be derived from"""
    seen = set() if seen is None else seen
    out = []
    st = [v]
    while st:
        x = st.pop()
        r, _, _ = model.addr(x)
        if isinstance(r, Inst) and r.op in ("phi", "select"):
            if id(r) in seen:
                continue
            seen.add(id(r))
            st += r.args if r.op == "phi" else r.args[1:]
        else:
            out.append(r)
    return out


def stores_to(s, f, argname):
    out = []
    a = f.argbyname[argname] if isinstance(argname, str) else argname
    for i in f.insts():
        if not s.executable(i):
            continue
        if i.op == "store" and a in proots(i.args[1]):
            out.append((i, i.d["sz"], i.d["vty"], s.get(i.args[0])))
        elif i.op == "call" and (i.callee or "").startswith(("llvm.memcpy", "llvm.memmove", "memcpy")) and a in proots(i.args[0]):
            n = i.args[2]
            out.append((i, n.v if isinstance(n, Const) else 1, "bytes", None))
        else:
            for s2, g, b in passed(s, i, a):
                out += stores_to(s2, g, b)
    return out


def passed(s, i, a):
    """functions of the program that receive a pointer into the object, analysed with the constants they are given"""
    g = s.P.funcs.get(i.callee or "") if i.op == "call" else None
    if g is None or g.decl or g.skipped or g is i.f:
        return
    idx = [k for k, x in enumerate(i.args[:len(g.args)]) if isinstance(x, (Arg, Inst)) and x.ty == "ptr" and a in proots(x)]
    if not idx:
        return
    bind = {}
    for k, x in enumerate(i.args[:len(g.args)]):
        v = s.get(x)
        if isinstance(v, int):
            bind[g.args[k].name] = v
    s2 = SCCP(s.P, g, bind)
    for k in idx:
        yield s2, g, g.args[k]


def loads_from(s, f, a):
    out = []
    for i in f.insts():
        if s.executable(i) and i.op == "load" and a in proots(i.args[0]):
            out.append((i, i.d["sz"]))
        elif s.executable(i) and i.op == "call" and (i.callee or "").startswith(("llvm.memcpy", "llvm.memmove", "memcpy")) and a in proots(i.args[1]):
            n = i.args[2]
            out.append((i, n.v if isinstance(n, Const) else 1))
        elif s.executable(i) and i.op == "call":
            for s2, g, b in passed(s, i, a):
                out += loads_from(s2, g, b)
    return out


def argpos(f, name, pos):
    """parameter by its position in the published interface (checked against its type)"""
    if pos >= len(f.args):
        raise build.AnalysisError("%s(): parameter %d (%s) not found" % (f.name, pos, name))
    return f.args[pos]


def check():
    R = report.Report("F06")
    P = ir.load(True)
    R.rule("per encoding value, constant propagation gives: size/type reported, width and kind of the decoder's output stores, set of sample types the encoder accepts and width of its sample reads, printable name; all must agree")
    fs, ft, fd, fe = P.fn("ms_samplesize"), P.fn("ms_encoding_sizetype"), P.fn("ms_decode_data"), P.fn("ms_encodingstr")
    fp = P.fn("msr_pack_data")
    # sample size per type letter
    size = {}
    for t in range(256):
        r = SCCP(P, fs, {fs.args[0].name: t}).returns()
        if len(r) != 1 or not isinstance(next(iter(r)), int):
            R.violation("samplesize:%d" % t, "size of sample type %r is not a single constant: %s" % (chr(t), r))
            continue
        size[t] = next(iter(r))
        R.count("type letters")
    want = {ord("t"): 1, ord("i"): 4, ord("f"): 4, ord("d"): 8}
    for t, n in want.items():
        if size.get(t) != n:
            R.violation("samplesize:%s" % chr(t), "ms_samplesize(): sample type '%s' has size %s, documented %d" % (chr(t), size.get(t), n))
    for t, n in size.items():
        if n and t not in want and t != ord("a"):
            R.violation("samplesize:%d" % t, "ms_samplesize(): undocumented sample type %r has size %d" % (chr(t), n))
    # encodings
    unknown = SCCP(P, fe, {fe.args[0].name: 200}).returns()
    acc = {}
    for e in range(256):
        R.count("encodings")
        s = SCCP(P, ft, {ft.args[0].name: e})
        rets = s.returns()
        ok = rets == {0}
        if len(rets) != 1:
            R.violation("sizetype:%d" % e, "ms_encoding_sizetype(%d): return value is not determined: %s" % (e, rets))
        sz = {x[3] for x in stores_to(s, ft, argpos(ft, "samplesize", 1))}
        ty = {x[3] for x in stores_to(s, ft, argpos(ft, "sampletype", 2))}
        if ok and (len(sz) != 1 or len(ty) != 1):
            R.violation("sizetype:%d" % e, "ms_encoding_sizetype(%d): size %s / type %s not uniquely determined" % (e, sz, ty))
            continue
        if ok:
            z, t = next(iter(sz)), next(iter(ty))
            acc[e] = (z, t)
            if size.get(t) != z:
                R.violation("size:%d" % e, "encoding %d: size %d reported for sample type '%s' whose sample size is %s" % (e, z, chr(t), size.get(t)))
            name = SCCP(P, fe, {fe.args[0].name: e}).returns()
            if name == unknown or len(name) != 1:
                R.violation("name:%d" % e, "encoding %d is supported but has no description of its own" % e)
        # decoder
        d = SCCP(P, fd, {argpos(fd, "encoding", 2).name: e})
        st = stores_to(d, fd, argpos(fd, "output", 4))
        if bool(st) != ok:
            R.violation("decode:%d" % e, "encoding %d: %s" % (e, "decoded but has no size/type" if st else "has a size/type but no decoder"))
        if ok and st:
            R.count("decoder output writes", len(st))
            z, t = acc[e]
            for i, w, vty, _ in st:
                if w != z:
                    R.violation("decode:%d:width" % e, "%s: decoder of encoding %d writes %d-byte samples, size reported is %d" % (i.where(), e, w, z))
                kind = {"float": "f", "double": "d", "i32": "i", "i8": "t"}.get(vty)
                if kind and chr(t) != kind and not (kind == "i" and chr(t) == "f"):
                    R.violation("decode:%d:kind" % e, "%s: decoder of encoding %d writes %s values, sample type reported is '%s'" % (i.where(), e, vty, chr(t)))
            tys = {x[3] for x in stores_to(d, fd, argpos(fd, "sampletype", 6))}
            if tys and tys != {t}:
                R.violation("decode:%d:type" % e, "decoder of encoding %d reports type %s, expected '%s'" % (e, tys, chr(t)))
    if len(acc) < 13:
        R.violation("encodings:count", "only %d encodings are supported, the format defines 13 that this library documents" % len(acc))
    # encoders
    pe, pt = argpos(fp, "encoding", 5), argpos(fp, "sampletype", 4)
    enc = 0
    for e in range(128):
        a = set()
        for t in (ord("t"), ord("a"), ord("i"), ord("f"), ord("d"), ord("x")):
            s = SCCP(P, fp, {pe.name: e, pt.name: t, fp.args[3].name: 4096, fp.args[2].name: 64})
            st = stores_to(s, fp, argpos(fp, "dest", 0))
            if st:
                a.add(t)
                if t in want:
                    for i, w in loads_from(s, fp, argpos(fp, "src", 1)):
                        R.count("encoder sample reads")
                        if w != want[t]:
                            R.violation("encode:%d:width" % e, "%s: encoder of encoding %d reads %d-byte samples of type '%s'" % (i.where(), e, w, chr(t)))
        if not a:
            continue
        enc += 1
        if e not in acc:
            R.violation("encode:%d" % e, "encoding %d can be written but not decoded" % e)
            continue
        t = acc[e][1]
        extra = a - {t} - ({ord("a")} if t == ord("t") else set())
        if t not in a or extra:
            R.violation("encode:%d:type" % e, "encoding %d: decoder produces '%s', encoder accepts %s" % (e, chr(t), sorted(map(chr, a))))
        R.sample("encoding %d: size %d type %s, encoder accepts %s" % (e, acc[e][0], chr(t), sorted(map(chr, a))))
    R.cov["encodings with decoder"] = len(acc)
    R.cov["encodings with encoder"] = enc
    if enc < 7:
        R.violation("encoders:count", "only %d encodings can be written, 7 are documented" % enc)
    R.need("encodings", 256)
    R.need("decoder output writes", 7)
    R.need("encoder sample reads", 4)
    return R.finish()
