"""F01: positions, widths and types of header fields."""
from .. import ir, report, records


def check():
    R = report.Report("F01")
    R.rule("reading: whatever the readers, detectors and raw printers use of a record is a whole field of the specified layout, used with the "
           "specified number type, and reaches the member, extra header, time component or printed label that the specification gives it.")
    R.rule("writing: every store into a record under construction covers exactly one field, and the value comes from the member, time component "
           "or extra header that belongs to this field; every field with a source is written.")
    P = ir.load(inlined=True)
    seen = records.run(P, R, "place")
    for t, w in [("h", records.W3)]:
        missing(R, seen, "msr3_pack_header3", t, w)
    for t, w in [("h", records.W2)] + list(records.WB.items()):
        missing(R, seen, "msr3_pack_header2", t, w)
    R.need("cases_interpreted", 60)
    R.need("uses_of_record_fields", 6000)
    R.need("writes_compared", 500)
    R.assume("The year of a version 2 record that is judged is one whose byte order can be told (1900 to 2047).")
    return R.finish()


def missing(R, seen, fn, t, w):
    got = seen.get((fn, t), set())
    for nm, src in w.items():
        if src is None:
            continue
        R.count("fields_required")
        if nm not in got:
            R.violation("%s:unwritten:%s:%s" % (fn, t, nm), "%s never writes field '%s'%s from %s" % (fn, nm, records.of(t), records.names(src)))
