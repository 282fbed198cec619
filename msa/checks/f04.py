"""F04: validation of checksums."""
from .. import crc, format as F, ir, report


def check():
    R = report.Report("F04")
    R.rule("with validation requested and a stored checksum that differs in any one bit from the computed one (all 32 bits, both hosts) no return of the version 3 parser "
           "is a success; with equal checksums one is. The checksum is computed over the record from its first byte and the whole length, from zero, with its field zeroed.")
    R.rule("at every return every byte of the record is what it was on entry.")
    R.rule("every routine with processing flags passes the caller's validation flag on to the parser.")
    P = ir.load(inlined=True)
    P.objinit = F.initobject(P)
    for big in (False, True):
        for bit in [None] + list(range(32)):
            crc.validated(P, R, big, bit)
        for stored, computed in ((0, 0x9C3A51E6), (0x9C3A51E6, 0), (0xffffffff, 0), (0, 0xffffffff), (1, 2)):
            crc.validated(P, R, big, computed, stored, True)
        for same in (0, 0xffffffff):
            crc.validated(P, R, big, same, same, True)
        crc.unrequested(P, R, big)
    d = crc.forwarded(ir.load(), R)
    R.sample("flags passed through: " + ", ".join(sorted(d)))
    R.need("validation_cases", 30)
    R.need("calls_that_pass_the_request", 4)
    R.assume("ms_crc32c() computes the checksum of the bytes it is given (its tables are decided by F07).")
    return R.finish()
