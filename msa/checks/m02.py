"""M02: the sample decoders read inside the payload and write inside the output buffer."""
from .. import ir, report, mcheck
from .m01 import record_root


def check():
    R = report.Report("M02")
    P = ir.load(inlined=True)
    R.rule("for each access of the decoding entry points and their decoders to the payload or to the output buffer: offset and width stay inside "
           "the stated input and output sizes, implied by dominating conditions, loop invariants and value definitions")
    names = [n for n in mcheck.closure(P, ["ms_decode_data", "msr3_unpack_data"])
             if ir.fname(n).startswith(("msr_decode_", "ms_decode_data", "msr3_unpack_data", "ms_gswap"))]
    P.fn("ms_decode_data"), P.fn("msr3_unpack_data")
    mcheck.decide(R, P, names, mcheck.access_obls(record_root))
    R.need("obligations proven", 15)
    return R.finish()
