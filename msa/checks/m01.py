"""M01: every read of the supplied bytes by detection, parsing and raw printing is inside them."""
from .. import ir, model, report, oblig, mcheck
from ..ir import Inst, Arg

ROOTS = ["ms3_detect", "msr3_parse", "ms_parse_raw2", "ms_parse_raw3", "msr3_unpack_mseed2", "msr3_unpack_mseed3",
         "msr3_data_bounds", "msr3_unpack_data", "ms_crc32c", "ms2_blktlen", "ms2_blktdesc"]


def record_root(B, O, acc, root):
    """the supplied buffer, the record a MS3Record refers to, or a choice among such"""
    if root[0] == "v":
        i = B.f.byid[root[1]]
        if isinstance(i, Arg):
            return i.i in oblig.BUFFERS.get(ir.fname(B.f.name), {})
        return isinstance(i, Inst) and i.op in ("phi", "select", "call")
    if root[0] == "m":
        return root[1][3] in ("MS3Record.record", None) or root[1][3] in oblig.FIELDBUF
    return root in B.mem.memphi


def check():
    R = report.Report("M01")
    P = ir.load(inlined=True)
    R.rule("for each access whose object is the supplied buffer or the record it was parsed from: 0 <= offset and offset + width <= length is implied "
           "by the branch conditions, loop invariants and value definitions that dominate it (linear arithmetic over SSA values)")
    names = mcheck.fns(P, [n for n in ROOTS if n in P.funcs])
    for n in ("ms3_detect", "msr3_parse", "ms_parse_raw2", "ms_parse_raw3", "msr3_unpack_data", "ms_crc32c"):
        P.fn(n)
    names = [n for n in mcheck.closure(P, names) if not ir.fname(n).startswith(("msr_decode_", "ms_decode_data"))]
    mcheck.decide(R, P, names, mcheck.access_obls(record_root))
    R.need("obligations proven", 250)
    return R.finish()
