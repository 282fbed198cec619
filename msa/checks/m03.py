"""M03: creating and repacking records writes inside the record buffer and reads inside the source."""
from .. import ir, model, report, mcheck, oblig, lin as LN
from ..ir import Const, Inst
from ..bounds import Ctx

PACKERS = ["msr3_pack", "msr3_pack_mseed2", "msr3_pack_mseed3", "msr3_repack_mseed3", "msr3_pack_header2", "msr3_pack_header3"]
KEEP = ("msr_pack_data", "msr3_pack_mseed2", "msr3_pack_mseed3")
ENCODERS = ["msr_encode_" + t for t in ("text", "int16", "int32", "float32", "float64", "steim1", "steim2")]
STEIM = ("msr_encode_steim1", "msr_encode_steim2")
# factor * result <= length parameter: checked at every return of the routine, used by its callers
RESULT = {
    "msr3_pack_header2": (2, 1), "msr3_pack_header3": (2, 1),
    "msr_encode_text": (3, 1), "msr_encode_int16": (3, 2), "msr_encode_int32": (3, 4),
    "msr_encode_float32": (3, 4), "msr_encode_float64": (3, 8),
}
# value stored through the parameter <= length parameter: checked at every store, used by the callers
STORED = {"msr_pack_data": (7, 3), "msr_encode_steim1": (5, 3), "msr_encode_steim2": (5, 3)}


class Contracts(oblig.Contracts):
    deep = True

    def call_result(self, B, i, a, ctx):
        c = ir.fname(model.callee(i) or "")
        out = []
        if c in RESULT:
            p, k = RESULT[c]
            B.touch(("s", ("v", i.id)), ctx)
            out.append(LN.add(B.lin("u", B.node(i.args[p]), ctx), LN.atom(("s", ("v", i.id))), -k))
        if c in STORED:
            q, p = STORED[c]
            r, off, vs, fl = B.mem.ptr(i.args[q])
            if B.mem.is_alloca(r) and not vs:
                for ld in B.f.insts():
                    if ld.op == "load" and B.mem.ptr(ld.args[0])[:3] == (r, off, vs):
                        n = B.node(ld)
                        if n[0] == "m" and n[2] == ("k", i.id) or n == ("v", i.id):
                            B.touch(("u", n), ctx)
                            out.append(LN.add(B.lin("u", B.node(i.args[p]), ctx), LN.atom(("u", n)), -1))
                            break
        return out


def post(B):
    """what the routines promise their callers"""
    f = B.f
    c = ir.fname(f.name)
    if c in RESULT:
        p, k = RESULT[c]
        for b in f.rblocks:
            t = b.term
            if t.op == "ret" and t.args:
                yield mcheck.src_key(t, "result"), t.where(), "", (lambda t=t, b=b: result(B, t.args[0], b, p, k))
    if c in STORED:
        q, p = STORED[c]
        for i in f.insts():
            if i.op == "store" and B.mem.ptr(i.args[1])[0] == ("v", f.args[q].id):
                yield mcheck.src_key(i, "stored"), i.where(), "", (lambda i=i: stored(B, i, p))
            elif i.op == "call" and any(B.mem.ptr(x)[0] == ("v", f.args[q].id) for x in i.args if not isinstance(x, Const)):
                yield mcheck.src_key(i, "forwarded"), i.where(), "", (lambda i=i: forwarded(B, i, q, p))


def known_start(decide):
    r = decide()
    return None if isinstance(r, str) and "start of the read" in r else r


def lenexp(B, p, ctx):
    return B.lin("u", ("v", B.f.args[p].id), ctx)


def result(B, v, b, p, k, to=None, depth=4):
    """factor * value <= length at the end of block b (on the way to block to)"""
    for view in "us":       # a signed reading is never the larger one
        ctx = Ctx(B.ctx_at(b))
        if to is not None:
            B.edge(b, to, ctx)
        g = LN.add(lenexp(B, p, ctx), B.lin(view, B.node(v), ctx), -k)
        if B.prove(g, b, ctx=ctx):
            return True
    if depth and isinstance(v, Inst) and v.op == "phi" and v.b.id not in B.loops and B.dom.dominates(v.b, b):
        if all(result(B, x, q, p, k, v.b, depth - 1) is True for q, x in v.inc):
            return True
    return "the result may exceed the length of the buffer (parameter %s)" % B.f.args[p].name


def stored(B, i, p):
    ctx = Ctx(B.ctx_at(i.b))
    g = LN.add(lenexp(B, p, ctx), B.lin("u", B.node(i.args[0]), ctx), -1)
    if B.prove(g, i.b, ctx=ctx):
        return True
    return "the number of bytes reported may exceed the length of the buffer (parameter %s)" % B.f.args[p].name


def forwarded(B, i, q, p):
    c = ir.fname(model.callee(i) or "")
    if c not in STORED:
        return "the place of the number of bytes is passed to %s, which promises nothing about it" % (c or "an unknown routine")
    ctx = Ctx(B.ctx_at(i.b))
    g = LN.add(lenexp(B, p, ctx), B.lin("u", B.node(i.args[STORED[c][1]]), ctx), -1)
    if B.prove(g, i.b, ctx=ctx):
        return True
    return "%s is given more room than the buffer has" % c


def buffers(B, O, acc, root):
    """parameters of stated size, allocated memory and the source record"""
    if root[0] == "v":
        i = B.f.byid[root[1]]
        return not (isinstance(i, Inst) and i.op == "alloca")
    return root[0] == "m"


def obls(B):
    for key, where, what, decide in mcheck.access_obls(buffers)(B):
        if key[2] in STEIM and key[3] == "r:4":
            # the last sample packed exists: follows from a packing loop having stored one
            yield key, where, what, (lambda d=decide: known_start(d))
        else:
            yield key, where, what, decide
    yield from post(B)


def check():
    R = report.Report("M03")
    P = ir.load(inlined=True, keep_extra=KEEP)
    R.rule("for each access of the record writers and encoders to the record buffer, to the encoding buffer, to the input samples of an encoder or to the "
           "source record: offset and width stay inside the stated or allocated size, implied by dominating conditions, loop invariants, value definitions and "
           "what the called routines promise about their results; each promise is decided in the routine that makes it")
    names = []
    for n in PACKERS + ENCODERS + ["msr_pack_data"]:
        P.fn(n)
        names += [m for m in P.funcs if ir.fname(m) == n and m in {x.name for x in P.defined}]
    mcheck.decide(R, P, sorted(set(names)), obls, contracts=Contracts)
    R.need("obligations proven", 200)
    return R.finish()
