"""F03: checksums of the version 3 records written."""
from .. import crc, ir, report


def check():
    R = report.Report("F03")
    R.rule("in every producer of version 3 records, at every hand-over of a record (call of the record handler, or successful return of the repacking routine) a checksum "
           "is valid on every path: computed of the record from its first byte, over the length that is handed over, starting from zero, with the four checksum bytes "
           "zero; after it nothing is stored to the record but the checksum field, which holds its bytes in little-endian order, on both hosts.")
    P = ir.load(inlined=True)
    for fn in crc.PRODUCERS:
        for big in (False, True):
            R.count("cases")
            if not crc.produced(P, R, fn, big):
                R.violation("%s:none" % fn, "%s: records leave without any checksum computation" % fn)
    R.need("cases", 4)
    R.assume("ms_crc32c() computes the checksum of the bytes it is given (its tables are decided by F07).")
    return R.finish()
