"""L04: network transfers."""
from .. import report, transfer


def check():
    R = report.Report("L04")
    R.rule("no call that lowers peer or host verification is executed unless getenv(\"%s\") succeeded: the routines are interpreted with that variable unset, from every value "
           "their switches can have by then." % transfer.ENV)
    R.rule("credentials are the caller's text; the header list holds the caller's texts and the user agent only; no option adds others; both are used for every transfer.")
    R.rule("a response code of 400-599, a failed first read or a transfer that ended with an error does not lead to a success return, transfers ask for HTTP errors to fail, "
           "and no success is returned without looking at the outcome.")
    T = transfer.Transfers(R)
    T.verification()
    T.additions()
    T.opening()
    T.reading()
    R.need("verification_options", 1)
    R.need("options", 6)
    R.need("header_additions", 1)
    R.need("response_codes", 100)
    R.need("transfer_results", 4)
    R.assume("libcurl honours its options, delivers a message for every transfer that has ended, and returns the response code it received.")
    R.assume("A process-wide switch is only changed by the code analysed or deliberately by the application.")
    return R.finish()
