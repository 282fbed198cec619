"""M05: constant tables are indexed inside their bounds."""
from .. import ir, model, report, mcheck
from ..ir import Inst

# table walks whose index bound is a calendar identity (sum of month lengths), see DESIGN.md
EXCLUDE_SRC = {"gmtime64.c"}


def table(B, O, acc, root):
    if acc.mode != "r" or root[0] != "g":
        return False
    g = B.P.globals.get(root[1])
    if not g or g["decl"] or not g.get("const") or acc.inst.file in EXCLUDE_SRC:
        return False
    if acc.inst.file.startswith("yyjson") or acc.inst.op != "load":
        return False
    return bool(B.mem.ptr(acc.ptr)[2])       # variable index


def check():
    R = report.Report("M05")
    P = ir.load(inlined=True)
    R.rule("for each load with a variable index from a constant table: 0 <= index and index + width <= table size, implied by dominating conditions and value ranges")
    names = [f.name for f in P.defined if f.file not in EXCLUDE_SRC and "yyjson" not in f.name and not f.skipped]
    sel = []
    for n in names:
        f = P.funcs[n]
        if any(i.op == "load" for i in f.insts()):
            sel.append(n)
    mcheck.decide(R, P, sel, mcheck.access_obls(table))
    R.need("obligations proven", 8)
    return R.finish()
