#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python for readability)."""
import json, os
L = "libmseed/"
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    P.append(d)

# ------------------------------------------------------------------ memory safety
prop("M01", "Detecting and parsing records never read outside the supplied bytes",
 "For any byte sequence and any length, detecting a record, parsing it into a record structure, computing its payload bounds and printing it raw read only bytes inside the supplied buffer of the stated length. Every header field, blockette, identifier, extra-header and payload access is preceded by a check that the bytes are inside the buffer or the record.",
 ["inputs"], "all byte buffers and lengths, valid or malformed, of both format versions",
 "The tests parse a few dozen well-formed reference records; the property is about every malformed or truncated one, and an out-of-range read usually goes unnoticed.",
 [L+"parseutils.c", L+"unpack.c"], [("ms3_detect", L+"parseutils.c"), ("msr3_parse", L+"parseutils.c"), ("ms_parse_raw2 / ms_parse_raw3", L+"parseutils.c"), ("msr3_unpack_mseed2 / msr3_unpack_mseed3 / msr3_data_bounds", L+"unpack.c")])
prop("M02", "Sample decoders stay inside the payload and inside the output buffer",
 "For any payload bytes, payload length, sample count and output size, decoding in any supported encoding reads only bytes inside the given payload and writes only inside the given output buffer. Fewer samples than requested are returned, or an error, when the payload or the output is too small.",
 ["inputs"], "all payloads, payload sizes, sample counts, output sizes and the 13 encodings",
 "Tests decode intact reference payloads whose size and sample count agree.",
 [L+"unpackdata.c", L+"unpack.c"], [("msr_decode_*", L+"unpackdata.c"), ("ms_decode_data", L+"unpack.c")])
prop("M03", "Packing never writes outside the record buffer",
 "For any record description, encoding, record length and amount of extra headers, creating, repacking or header-packing a record writes only inside the record buffer of the given or allocated length and reads only inside the supplied samples and source record. A header that does not fit is refused with an error.",
 ["inputs", "configurations"], "all record headers, extra headers, sample values, encodings and record lengths",
 "Tests pack a handful of series with default record lengths; overflow needs particular header sizes, extra-header contents or sample counts.",
 [L+"pack.c", L+"packdata.c"], [("msr3_pack_header2 / msr3_pack_header3 / msr3_repack_mseed3", L+"pack.c"), ("msr_encode_*", L+"packdata.c")])
prop("M04", "Fixed-size buffers are never overrun and their strings are terminated",
 "Every write into a fixed-size array, whether a local buffer or an array member of a record, selection, trace or reader structure, stays inside that array for every input string, identifier, file name, time or log message. Text placed in such an array is always NUL-terminated within it.",
 ["inputs"], "all strings, identifiers, paths, times and messages handled by the library and the msi program",
 "Overflow needs inputs longer than any in the tests; a one-byte overrun of a local array is normally silent.",
 [L+"genutils.c", L+"fileutils.c", L+"selection.c", L+"tracelist.c", L+"extraheaders.c", L+"logging.c", L+"unpack.c", L+"parseutils.c", "src/msi.c"], [("bounded copies (strncpy/snprintf/ms_strncpclean)", "library-wide"), ("time string buffers", "library-wide")])
prop("M05", "Constant lookup tables are only indexed inside their bounds",
 "For any input value, every lookup in a built-in constant table (bit masks, month lengths, scaling factors, checksum tables, name and message tables) uses an index inside the table.",
 ["inputs"], "all values that can reach a table index",
 "An index outside a table needs a malformed field value that the reference data does not contain.",
 [L+"genutils.c", L+"crc32c.c", L+"unpackdata.c", L+"packdata.c", L+"gmtime64.c", L+"lookup.c"], [("table lookups", "library-wide")])
prop("M06", "Untrusted values never cause a division by zero or an oversized shift",
 "No value taken from a record, file, URL, command line or caller can make an integer division or remainder have a zero divisor, or a bit shift have a count that is negative or not smaller than the width of the shifted type.",
 ["inputs"], "all header, blockette and argument values",
 "The reference records only contain sane exponents, factors and multipliers.",
 [L+"parseutils.c", L+"unpack.c", L+"unpackdata.c", L+"packdata.c", L+"genutils.c", L+"pack.c"], [("record length exponent", L+"unpack.c"), ("sample rate factor/multiplier", L+"genutils.c")])
# ------------------------------------------------------------------ format
prop("F01", "Header fields are read and written at the positions the format defines",
 "Every field of the fixed headers and of each supported blockette is read, printed and written at the byte offset and with the width and number type that the miniSEED 2.x and 3.x specifications define. The reader, the raw printer and the writers therefore agree with the specification and with each other, including blockette lengths and the start of identifier, extra headers and payload.",
 ["inputs"], "all header and blockette fields of both format versions",
 "A reference record in which a field is zero or unused hides a wrong position; rarely used blockettes are in no test.",
 [L+"mseedformat.h", L+"unpack.c", L+"pack.c", L+"parseutils.c"], [("field accessors", L+"mseedformat.h"), ("msr3_unpack_mseed2/3", L+"unpack.c"), ("msr3_pack_header2/3", L+"pack.c"), ("ms_parse_raw2/3", L+"parseutils.c")])
prop("F02", "Multi-byte fields are converted to and from the record's byte order",
 "Every multi-byte header, blockette and sample value is byte-swapped exactly when the byte order of the record (big-endian by convention or detected for version 2, little-endian for version 3) differs from the host, on reading, on raw printing and on writing. The byte order recorded for the payload follows the record.",
 ["inputs", "configurations"], "all fields, both byte orders of version 2 headers and payloads, version 3",
 "Tests run on one host and mostly use one byte order; a missing swap of a rarely used field is not exercised.",
 [L+"unpack.c", L+"pack.c", L+"parseutils.c", L+"unpackdata.c", L+"packdata.c"], [("HO2u/HO4u/HO4f/HO8f, ms_gswap*", L+"mseedformat.h"), ("swapflag", L+"unpack.c")])
prop("F03", "Every version 3 record written carries a checksum of its final bytes",
 "Whenever a version 3 record is produced, its checksum field holds the CRC-32C of the complete record of the stated length with that field zeroed, and no byte of the record changes after the checksum is computed and before the record is handed to the caller.",
 ["inputs", "histories"], "all packed, header-rewritten and converted version 3 records",
 "Tests compare a few written files; a path that patches a header after the checksum is not reached.",
 [L+"pack.c", L+"tracelist.c"], [("msr3_pack_mseed3 / msr3_repack_mseed3", L+"pack.c")])
prop("F04", "Requested checksum validation rejects a corrupted version 3 record",
 "When checksum validation is requested, a version 3 record is accepted only if the CRC-32C of the whole record with the checksum field zeroed equals the stored value, and the check happens before success is reported. The caller's record bytes are the same after validation as before.",
 ["inputs"], "all version 3 records, intact or corrupted",
 "No test feeds a corrupted record on every decoding path.",
 [L+"unpack.c"], [("msr3_unpack_mseed3", L+"unpack.c")])
prop("F05", "Version 2 flag bits and extra headers map to each other symmetrically",
 "Each version 2 activity, I/O-clock and data-quality flag bit that is read into an extra header or record flag is written back from the same extra header or flag to the same bit, and no two flags share a mapping. The same holds for the flags of event detection and calibration blockettes and the keys of the entries they become, and each printed flag message belongs to the bit it names.",
 ["inputs"], "all flag bits in both directions",
 "The reference files set only a few of the 24 bits.",
 [L+"unpack.c", L+"pack.c"], [("msr3_unpack_mseed2", L+"unpack.c"), ("msr3_pack_header2", L+"pack.c")])
prop("F06", "Encodings, sample types and sample sizes agree everywhere",
 "For every data encoding the sample type and size reported for it, the sample type and size its decoder produces, and the sample type its encoder requires agree; each sample type has one size throughout the library; and every encoding the decoder or encoder supports has a size, a type and a printable description.",
 ["inputs", "configurations"], "all encodings and sample types",
 "Tests use five of the encodings; a size mismatch for another is an overflow only for its data.",
 [L+"lookup.c", L+"unpack.c", L+"pack.c", L+"unpackdata.c", L+"packdata.c"], [("ms_samplesize / ms_encoding_sizetype / ms_encodingstr", L+"lookup.c"), ("ms_decode_data", L+"unpack.c"), ("msr_pack_data", L+"pack.c")])
prop("F07", "Built-in reference tables equal their published definitions",
 "The checksum lookup tables equal the tables derived from the CRC-32C (Castagnoli) polynomial, the built-in leap second list equals the published one in strictly increasing order, the month-length and cumulative-day tables equal the Gregorian calendar, and the numeric and character-class tables of the embedded JSON parser equal their definition.",
 ["inputs"], "every entry of every built-in table",
 "Tests touch a few entries of each table; one wrong entry corrupts results only for particular inputs.",
 [L+"crc32c.c", L+"genutils.c", L+"gmtime64.c", L+"unpackdata.c", L+"packdata.c"], [("CRC tables", L+"crc32c.c"), ("embedded leap second list", L+"genutils.c"), ("month tables", L+"genutils.c")])
# ------------------------------------------------------------------ resources
prop("R01", "Everything acquired is released on every exit, including error exits",
 "Whatever fails and at whatever point, no library call loses memory, an open file or connection, or a parsed header document that it acquired: each is released, stored in an object the caller can release, or returned, on every path out of the call.",
 ["fault_sequences", "inputs"], "all paths through every library routine and the msi program's own helpers, including each possible failure",
 "Error paths need failing allocations, I/O errors or malformed content at a particular point; tests check results, not leaks.",
 [L+"pack.c", L+"unpack.c", L+"tracelist.c", L+"selection.c", L+"extraheaders.c", L+"fileutils.c", L+"msio.c", L+"genutils.c", L+"logging.c", L+"msrutils.c"], [("cleanup before return", "library-wide")])
prop("R02", "Released memory and handles are never used or released again",
 "After a block of memory, file handle or document is released, no path of any library routine dereferences, returns, stores or releases it again, and a pointer field that referred to it in a surviving object is reset or overwritten before it can be used.",
 ["histories", "fault_sequences", "inputs"], "all paths through every library routine",
 "A use after release needs a particular error at a particular point and is often silent.",
 [L+"pack.c", L+"unpack.c", L+"tracelist.c", L+"extraheaders.c", L+"fileutils.c", L+"msio.c", L+"msrutils.c"], [("free and reset", "library-wide")])
prop("R03", "Every allocation failure is detected before the memory is used",
 "Every result of an allocation or growth request is tested before it is dereferenced, written through or handed to code that uses it, a failed growth leaves the old block reachable, and the failing call reports an error.",
 ["fault_sequences"], "a failure of any single allocation in any library routine",
 "Tests never make an allocation fail.",
 [L+"msrutils.c", L+"unpack.c", L+"pack.c", L+"tracelist.c", L+"selection.c", L+"fileutils.c", L+"extraheaders.c", L+"genutils.c", L+"logging.c"], [("allocation checks", "library-wide")])
prop("R04", "All library memory goes through the replaceable allocation functions",
 "Every block the library allocates, grows or releases, including those made by the embedded JSON parser on its behalf, uses the allocation functions the application installed, and a block is never released through another allocator.",
 ["configurations", "inputs"], "all allocation, growth and release sites of the library",
 "Tests never install other allocation functions, with which the mismatch would corrupt the heap.",
 [L+"genutils.c", L+"extraheaders.c", L+"pack.c", L+"logging.c"], [("libmseed_memory", L+"libmseed.h"), ("JSON allocator", L+"extraheaders.c")])
prop("R05", "A failed parse or read leaves the caller's record and reader handles consistent",
 "When reading the next record fails or reaches the end, the caller's record handle has been released and cleared; when a file reader is closed or fails to open, its stream and read buffer are closed and released exactly once and its handle is cleared. The caller can always call the documented cleanup afterwards.",
 ["inputs", "fault_sequences", "histories"], "all failure and end-of-input exits of the readers",
 "Tests read intact files to the end.",
 [L+"fileutils.c"], [("ms3_readmsr_selection", L+"fileutils.c")])
# ------------------------------------------------------------------ errors
prop("E01", "Data that could not be written is reported to the caller",
 "If a write of records to a file is short or fails, the writing routine returns an error instead of a success count, and the msi program that cannot write or finish its output files reports it and exits with a nonzero status.",
 ["fault_sequences"], "a failure of any single write, flush or close of an output file",
 "Tests never fill a disk or break a pipe.",
 [L+"fileutils.c", "src/msi.c"], [("msr3_writemseed / mstl3_writemseed / ms_record_handler_int", L+"fileutils.c"), ("output files", "src/msi.c")])
prop("E02", "Failures of lower layers are never treated as success",
 "When an internal step (parsing a time, decoding, packing, allocating a list node, adding to a list, reading or positioning a file, serializing or setting extra headers) reports failure, the routine that invoked it detects exactly that failure indication and returns an error or takes a documented fallback; it never proceeds with the failed result as if it were valid.",
 ["fault_sequences", "inputs"], "every call of a fallible routine inside the library and msi",
 "A dropped error needs the inner step to fail; the tests only let outer steps fail.",
 [L+"fileutils.c", L+"tracelist.c", L+"unpack.c", L+"pack.c", L+"selection.c", L+"extraheaders.c", L+"genutils.c", "src/msi.c"], [("return value checks", "library-wide")])
prop("E03", "Failures are explained in the log before an error is returned",
 "Every routine documented to log when it fails emits an error message, itself or through a routine it calls, on every path that returns an error other than the documented silent ones.",
 ["fault_sequences", "inputs"], "all error exits of the routines documented with a message on error",
 "Tests do not look at messages.",
 [L+"fileutils.c", L+"unpack.c", L+"pack.c", L+"tracelist.c", L+"selection.c", L+"extraheaders.c", L+"genutils.c"], [("ms_log (2, ...)", "library-wide")])
prop("E04", "Required pointer arguments are rejected when missing",
 "Public routines that are documented to require an object, buffer or output location test the argument before using it and return their error value when it is missing, instead of crashing.",
 ["inputs"], "every public routine and each of its pointer arguments that the current interface validates",
 "Tests never pass missing arguments.",
 [L+"msrutils.c", L+"unpack.c", L+"pack.c", L+"tracelist.c", L+"selection.c", L+"extraheaders.c", L+"genutils.c", L+"fileutils.c", L+"parseutils.c"], [("argument validation", "library-wide")])
# ------------------------------------------------------------------ environment
prop("L01", "Independent objects can be used from different threads",
 "Apart from the documented process-wide settings (logging defaults, leap second list, allocation functions, the global file handle of the non-reentrant readers and URL connection settings), library routines keep no state outside the objects passed to them and call no system routine that returns shared static storage.",
 ["schedules"], "all interleavings of library calls on distinct objects",
 "Tests are single-threaded.",
 [L+"genutils.c", L+"tracelist.c", L+"fileutils.c", L+"logging.c", L+"msio.c"], [("global state", "library-wide")])
prop("L02", "The library never terminates the program or bypasses the log for diagnostics",
 "Library routines never exit or abort the process and never write diagnostics directly to standard output or error: diagnostics go through the logging facility, so an application that redirects the log sees every one. Text taken from data, file names or callers is never interpreted as a format.",
 ["inputs", "configurations"], "all library routines except the logging back end itself",
 "Tests do not redirect the log or use directive characters in data.",
 [L+"logging.c", "library-wide"], [("ms_log", L+"libmseed.h")])
prop("L03", "The stored log registry is bounded and every entry is released once",
 "With message storing enabled, the number of stored messages never exceeds the configured maximum, each stored message is truncated to its fixed size and terminated, and each is released exactly once when emitted, displaced or cleared, after which the stored count matches the list.",
 ["histories", "inputs"], "all sequences of logging, emitting and clearing",
 "No test uses the registry.",
 [L+"logging.c"], [("add_message_int / ms_rlog_emit / ms_rlog_free", L+"logging.c")])
prop("L04", "Secure transfers are verified and failed transfers are errors",
 "Peer verification of a network source is disabled only when the user asked for it through the documented environment setting, an HTTP status of failure or a transport error makes opening or reading fail, and credentials and headers set by the caller are the only ones added.",
 ["configurations", "fault_sequences"], "all network sources and settings",
 "There is no network in the tests.",
 [L+"msio.c", L+"genutils.c"], [("msio_fopen / msio_fread", L+"msio.c")])
# ------------------------------------------------------------------ progress / state
prop("T01", "Parsing, reading and packing loops always make progress",
 "For any input, every loop over blockettes, records, frames, list nodes, bytes of a stream or samples advances by at least one unit or stops, so no input makes the library spin forever.",
 ["inputs"], "all loops of the library whose continuation depends on input data",
 "A chain that points to itself or a zero length needs malformed input.",
 [L+"unpack.c", L+"parseutils.c", L+"fileutils.c", L+"pack.c", L+"tracelist.c"], [("blockette chain", L+"unpack.c"), ("record reading loop", L+"fileutils.c"), ("packing loop", L+"pack.c")])
prop("T02", "Caller input is not modified",
 "Routines leave the record bytes, samples, strings, selections and structures that they take as inputs unchanged; only documented outputs are written, and a temporary in-place change is undone before returning.",
 ["inputs"], "all inputs of parsing, decoding, packing, matching and printing routines",
 "Tests compare outputs, not inputs after the call.",
 [L+"unpack.c", L+"pack.c", L+"extraheaders.c", L+"selection.c", L+"tracelist.c", L+"parseutils.c"], [("const parameters", L+"libmseed.h")])
prop("T03", "Trace list links and counters stay consistent under every operation",
 "After any sequence of adding records, merging, converting, packing and releasing, each trace's first/last and next/previous segment links, the list's forward links, and the counts of traces, segments and stored records agree with the nodes actually linked, also when an operation fails part-way.",
 ["histories", "fault_sequences"], "all sequences of list operations including failing ones",
 "Tests build a few lists from well-ordered data with no failures.",
 [L+"tracelist.c"], [("mstl3_addmsr_recordptr / mstl3_addID / mstl3_msr2seg", L+"tracelist.c")])
prop("T04", "Sample buffers and their bookkeeping change together",
 "Whenever the sample buffer of a record or trace segment is replaced, shrunk, extended or released, its sample count, sample type and buffer size are updated on the same path so that they always describe the buffer that is present.",
 ["histories", "fault_sequences"], "all operations that replace or resize sample buffers",
 "A stale size shows only when a later operation uses the buffer.",
 [L+"msrutils.c", L+"unpack.c", L+"tracelist.c"], [("datasamples/numsamples/datasize/sampletype", L+"libmseed.h")])

# ------------------------------------------------------------------ not decided by this family
prop("N01", "Time conversions are exact and inverse",
 "Converting between nanosecond times, calendar times and time strings is exact over the supported range, leap seconds are honoured, and formatting followed by parsing returns the same time.",
 ["inputs"], "all representable times and all string formats",
 "Tests sample about a hundred times.", [L+"genutils.c", L+"gmtime64.c"], [("ms_time2nstime_int", L+"genutils.c")])
prop("N02", "Packing then parsing returns the same samples",
 "Samples packed in any lossless encoding and parsed back are identical in number, type and value for every series.",
 ["inputs"], "all sample series and record lengths", "Tests round-trip a few series.", [L+"packdata.c", L+"unpackdata.c"], [("Steim compression", L+"packdata.c")])
prop("N03", "Trace lists represent exactly the coverage of the added records",
 "The segments of a trace list cover exactly the time spans of the records added, in any order of addition, with adjacent records within tolerance joined.",
 ["histories", "inputs"], "all record sets and orders", "Tests add a few files in order.", [L+"tracelist.c"], [("mstl3_addmsr_recordptr", L+"tracelist.c")])
prop("N04", "Reading is independent of how the stream is delivered",
 "The records returned from a file or stream do not depend on how many bytes each read delivers.",
 ["schedules", "inputs"], "all partial-read schedules", "Tests read local files.", [L+"fileutils.c", L+"msio.c"], [("ms3_readmsr_selection", L+"fileutils.c")])
prop("N05", "Selection globs match exactly the documented language",
 "An identifier matches a selection pattern exactly when the documented glob language says so, and time limits are inclusive as documented.",
 ["inputs"], "all patterns and identifiers", "Tests use a few patterns.", [L+"selection.c"], [("ms_globmatch", L+"selection.c")])
prop("N06", "Sample rate representations convert without loss of meaning",
 "Factor/multiplier, period and floating-point sample rates convert to each other within the precision of the format.",
 ["inputs"], "all rates", "Tests use integral rates.", [L+"genutils.c"], [("ms_genfactmult / ms_ratapprox", L+"genutils.c")])
prop("N07", "Extra header get/set behave like a JSON document",
 "Setting a value at a path and getting it returns the same value, other values are unaffected, and removal removes exactly that value.",
 ["histories", "inputs"], "all documents, paths and values", "Tests use a few documents.", [L+"extraheaders.c", L+"yyjson.c"], [("mseh_set_ptr_r / mseh_get_ptr_r", L+"extraheaders.c")])
prop("N08", "Rolling record packing flushes every sample once, in order",
 "The records produced from a trace list contain every sample exactly once, in time order, and the remaining buffer is exactly the unpacked samples.",
 ["histories", "inputs"], "all sequences of additions and flushes", "Tests pack once.", [L+"tracelist.c", L+"pack.c"], [("mstl3_pack", L+"tracelist.c")])
prop("N09", "Sample type conversion preserves values or refuses",
 "Converting samples to another type preserves each value, or refuses when precision would be lost and truncation is not allowed.",
 ["inputs"], "all sample values", "Tests do not convert.", [L+"tracelist.c"], [("mstl3_convertsamples", L+"tracelist.c")])
prop("N10", "Gap, overlap and latency figures printed by msi are arithmetically right",
 "The gap, overlap, coverage and latency numbers in the program's listings equal the values computed from the records' times.",
 ["inputs"], "all sets of records", "Tests compare a few listings.", ["src/msi.c", L+"tracelist.c"], [("mstl3_printgaplist", L+"tracelist.c")])
prop("N11", "Embedded JSON parser correctness",
 "The embedded JSON parser accepts exactly valid JSON and reproduces its values.",
 ["inputs"], "all JSON texts", "Tests use a few documents.", [L+"yyjson.c"], [("yyjson", L+"yyjson.c")])
prop("N12", "The program finishes in time and space proportional to its input",
 "Processing a set of files takes time and memory bounded by a small multiple of their size.",
 ["inputs"], "all inputs", "Tests use small files.", [L+"tracelist.c"], [("skip list", L+"tracelist.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
