"""F02: byte order of multi-byte fields."""
from .. import ir, orders, report, records


def check():
    R = report.Report("F02")
    R.rule("reading: a multi-byte field of the record reaches its member, extra header, time component or printed label with its bytes exchanged exactly "
           "when the order of the record and of the host differ; both hosts and both orders are interpreted.")
    R.rule("writing: every multi-byte field stored in a record has the order of the record's format; both hosts are interpreted.")
    R.rule("payloads: at every successful return of a reader the recorded byte orders of header and payload are the specified ones for each encoding, blockette 1000 "
           "and host; decoders are asked for exactly the recorded payload order, encoders for the order of the format; the first value handled by each decoder and "
           "fixed-width encoder is put together from its bytes in the order asked for, the first difference of each Steim packing from its bits.")
    P = ir.load(inlined=True)
    records.run(P, R, "order")
    orders.run(P, R)
    R.need("payload_cases_interpreted", 50)
    R.need("cases_interpreted", 60)
    R.need("uses_of_record_fields", 6000)
    R.need("writes_compared", 500)
    R.assume("The year of a version 2 record that is judged is one whose byte order can be told (1900 to 2047).")
    return R.finish()

