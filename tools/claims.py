"""Claimed properties beyond the first ones (merged by mkmanifest.py)."""
A = "abstract interpretation over the IR: value numbering with memory versions, linear facts from guards, inferred loop invariants; every access is a proof obligation"
CLAIM = {
 "M01": (A, "Every read in detection, parsing, header printing and their helpers; buffer extents come from the caller's length argument, the record length field contract and allocation sizes."),
 "M02": (A, "Every payload read and output write of the 13 decoders and their dispatcher."),
 "M03": (A + "; assume-guarantee contracts on results and reported lengths, each decided in the routine that makes it", "Every access of the five record writers, the seven encoders and their dispatcher to the record, encoding buffer, input samples and source record. Not decided: the lower end of one read of the Steim encoders (the last sample packed) and their difference windows."),
 "M04": (A + "; plus a must-terminate dataflow rule for copied text", "Every write into a local, static or member array; the difference windows of the two Steim encoders are excluded (index relation outside the templates)."),
 "M05": (A, "Every variable index into a constant table of the library and the program; the month search loops of the 64-bit calendar code are excluded."),
 "M06": (A, "Every integer division, remainder and shift with a variable divisor or count; divisors converted from floating point are excluded."),
 "R01": ("typestate analysis: path-sensitive abstract execution of the SSA form, one acquisition site at a time, with the failure of every later call considered",
  "Every acquisition site of the library and the program except main(); ownership of calls outside the analysed source comes from a resource table."),
 "R02": ("typestate analysis: path-sensitive abstract execution of the SSA form from every releasing call, following every copy of the released reference",
  "Every release of the library and the program; uses in callees through per-parameter summaries (dereferenced, released)."),
 "R03": ("nullness and failure-flow analysis: each allocation is assumed to fail and every path from it is executed abstractly; interprocedural parameter-dereference summaries",
  "Every allocation and every allocating routine, and every growth site (the old block must stay reachable)."),
 "E02": ("failure-flow analysis: each fallible call is assumed to fail and every path from it to a return is executed abstractly",
  "Every fallible call of the library and the program, one failure at a time; documented fallbacks are a table per function and step."),
 "E01": ("failure-flow analysis: each write, flush and close of an output stream is assumed to fail (or a callback to report it) and every path to the result is executed abstractly",
  "Every output-stream call of the library and the program except console reports; a success result after writing requires the stream to have been finished."),
 "E03": ("must-log dataflow on failing paths: abstract execution of the SSA form with interprocedural summaries of the routines that always log when they fail",
  "Every routine whose interface documents a message on error; documented silent results are a table per function."),
 "E04": ("nullness analysis: each pointer argument is assumed missing and every path is executed abstractly; interprocedural parameter-dereference summaries",
  "Every pointer parameter of every routine of the public interface; parameters the interface never validates are a table per function."),
 "R05": ("typestate analysis: path-sensitive abstract execution of the SSA form of the readers and of the stream routines, per kind of stream",
  "The three reading routines, their cleanup call, opening and closing of streams (file, descriptor, URL)."),
 "T04": ("typestate analysis: path-sensitive abstract execution that follows buffer, size, count and type of every record and segment together",
  "Every function that stores one of the four members; sizes are compared as symbolic values with the allocation request. That the stored count is the right number is not decided."),
 "F01": ("abstract interpretation over the IR with the origin of every bit (byte provenance), per host and record byte order, format version and blockette type",
  "Every use of a record field by readers, detectors and raw printers, and every store of the record writers, compared with a table of the SEED 2.4 and miniSEED 3 layouts."),
 "F02": ("abstract interpretation over the IR with the origin of every bit (byte provenance), per host and record byte order",
  "Header and blockette fields, recorded and requested payload orders, first value of every decoder and fixed-width encoder, first difference of every Steim packing; bodies of the Steim encoders after the first sample are not decided."),
 "F03": ("must-dataflow over the CFG with the origin of every bit (byte provenance): a ghost checksum is valid from its computation to the next store",
  "Both producers of version 3 records, both hosts; lengths are compared as value names. The checksum routine itself is decided only in its tables (F07)."),
 "F04": ("abstract interpretation over the IR with constant-folded cases of stored and computed checksum, plus flag-forwarding dataflow over the call graph",
  "All single-bit and boundary mismatches on both hosts, contents of the record at every return, and every call that forwards processing flags."),
 "F05": ("composition of abstract interpretations over the IR: reader of flag bytes, builder of JSON entries, writer of flag bytes, under enumerated flag scenarios",
  "Every defined bit, every pair and the full set of the 24 header bits; every meaningful combination of the flags of each blockette; both host orders."),
 "T02": ("interprocedural parameter-write (mod) analysis over the IR with declared types from debug info; abstract interpretation decides that temporary changes are undone",
  "Every function of the library and program, every parameter declared as pointer to constant, the listed inputs of encoders, decoders and extra header functions, and the constant pointer members."),
 "L04": ("abstract interpretation over the IR with the environment variable unset, from every reachable value of the switches; must-dataflow and reachability over the executed edges for failures",
  "Every option call of the program; every response code 400-599; the error results of a transfer; headers and credentials by origin of the text. libcurl itself is outside."),
 "T01": ("termination analysis: per loop, backward slice of the exit conditions over SSA form and memory SSA, and a (lexicographic) measure proved with linear arithmetic on every way round; typestate analysis of the reader with a stalled source",
  "Every loop of the library and the program except the embedded JSON parser; 5 of 161 loops are not decided (rational approximation, merging of list segments, the argument loop of main) and listed in the evidence."),
}
