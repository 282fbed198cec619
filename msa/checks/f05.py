"""F05: version 2 flag bits and the extra headers they stand for."""
from .. import ir, report, flags


def check():
    R = report.Report("F05")
    R.rule("each defined activity, I/O and data quality bit, every pair of them and all of them together: the extra headers and record flags the reader derives from "
           "the flag bytes are given to the writer, which stores the same flag bytes; every bit has an effect and no two have the same.")
    R.rule("each blockette 200, 201, 300, 310, 320, 390, 395 and every combination of its flags: the entry the reader adds, in the keys and values the "
           "JSON entry is made of, is written as the same blockette with the same flags.")
    R.rule("each member of an entry is stored under the key from which the writer fills the field the member was read from.")
    R.rule("headers that are false, zero or absent set no bit; a time correction sets exactly the bit that marks it applied.")
    R.rule("printers: a flag bit changes exactly the messages labelled with its number, and every defined bit has one.")
    P = ir.load(inlined=True)
    flags.run(P, R)
    R.need("scenarios", 12)
    R.assume("Blockette 200: bit 0 (wave direction) has a meaning only while bit 2 (undetermined) is not set; blockette 310: at most one amplitude range; "
             "at most one of positive and negative leap second.")
    R.assume("The JSON library stores and returns what it is given.")
    return R.finish()
