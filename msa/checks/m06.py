"""M06: no zero divisor and no oversized shift count."""
from .. import ir, model, report, mcheck, lin as LN
from ..ir import Const, Inst
from ..bounds import Ctx
from ..memory import width

DIV = {"udiv", "urem", "sdiv", "srem"}
SH = {"shl", "lshr", "ashr"}


def from_float(v, seen=None):
    """starts from a rounded floating-point result: its range is a numerical question"""
    seen = seen if seen is not None else set()
    if not isinstance(v, Inst) or v.id in seen:
        return False
    seen.add(v.id)
    if v.op in ("fptosi", "fptoui"):
        return True
    if v.op in ("phi", "add", "sub", "select", "sext", "zext", "trunc"):
        return any(from_float(a, seen) for a in v.args)
    return False


def obls(B):
    for i in B.f.insts():
        if i.op in DIV or i.op in SH:
            v = i.args[1]
            if isinstance(v, Const):
                continue
            if i.op in DIV and from_float(v):
                continue
            yield mcheck.src_key(i, i.op), i.where(), "", (lambda i=i, v=v: decide(B, i, v))


def decide(B, i, v):
    n = B.node(v)
    w = width(i.ty)
    if i.op in SH:
        lo, hi = B.ivv("u", v)
        if hi < w:
            return True
        ctx = Ctx(B.ctx_at(i.b))
        e = B.lin("u", n, ctx)
        if B.prove(LN.add(LN.const(w - 1), e, -1), i.b, ctx=ctx):
            return True
        x = v
        while isinstance(x, Inst) and x.op in ("zext", "sext"):
            x = x.args[0]
        ok = True
        for sgn, k in ((1, 0), (-1, w - 1)):
            ctx = Ctx(B.ctx_at(i.b))
            e = B.lin("s", B.node(x), ctx)
            ok = ok and B.prove(LN.add(LN.const(k), e, sgn), i.b, ctx=ctx)
        if ok:
            return True
        return "count of the %s may be %d or more" % (i.op, w)
    lo, hi = B.ivv("u", v)
    if lo >= 1:
        return True
    ctx = Ctx(B.ctx_at(i.b))
    if B.prove(LN.add(B.lin("u", n, ctx), LN.const(-1)), i.b, ctx=ctx):
        return True
    for sgn in (1, -1):
        ctx = Ctx(B.ctx_at(i.b))
        if B.prove(LN.add(LN.scale(B.lin("s", n, ctx), sgn), LN.const(-1)), i.b, ctx=ctx):
            return True
    return "divisor of the %s may be zero" % i.op


def check():
    R = report.Report("M06")
    P = ir.load(inlined=True)
    R.rule("for each integer division or remainder with a variable divisor: divisor != 0; for each shift with a variable count: 0 <= count < width; "
           "implied by dominating conditions and value ranges")
    names = [f.name for f in P.defined if "yyjson" not in f.name and not f.skipped
             and any(i.op in DIV or i.op in SH for i in f.insts())]
    mcheck.decide(R, P, names, obls)
    R.need("obligations proven", 14)
    return R.finish()
