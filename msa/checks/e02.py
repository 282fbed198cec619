"""E02: a failed step is never treated as success.

Failure-flow analysis: each call that can fail is assumed to fail (its result is given exactly the failure values of its
convention) and every path of the calling function from there on is executed abstractly (static helpers inlined).
A return that is a definite success is a violation unless the pair (function, step) is a documented fallback."""
import os, re
from multiprocessing import Pool
from .. import ir, model, report, build, paths, resources, failflow
from ..ir import Const, Inst

_P = None
# (function or "*", step, label or "*") -> (mode, why); mode "log": the failure must still be reported by a warning
FALLBACK = {
 ("*", "mseh_set_ptr_r", "msr3_unpack_mseed2"): ("log", "header values without a place in the extra headers are reported, the record is still usable"),
 ("*", "mseh_serialize", "msr3_unpack_mseed2"): ("log", "same"),
 ("*", "ms_nslc2sid", "ms2_recordsid"): ("any", "fixed-width codes always fit"),
 ("*", "fclose", "*"): ("any", "closing a stream that was only read loses nothing; streams written are decided by E01"),
 ("*", "ms_nstime2timestr", "*"): ("any", "a time that is only printed"),
 ("*", "msr3_endtime", "*"): ("any", "fails only for a missing record, which the caller has"),
 ("*", "curl_multi_remove_handle", "msio_fclose"): ("any", "the handle is released in any case"),
 ("*", "curl_easy_cleanup", "*"): ("any", "release"),
 ("*", "curl_multi_timeout", "msio_fread"): ("any", "the default time-out is kept"),
 ("*", "select", "msio_fread"): ("any", "retried"),
 ("*", "curl_easy_getinfo", "msio_fopen"): ("any", "an unknown response code is decided by the first read"),
 ("main", "ms_readleapseconds", "*"): ("any", "the built-in leap second list is used, the reader has reported it"),
 ("main", "mstl3_init", "*"): ("any", "reported when the first record cannot be added"),
 ("msr3_print", "mseh_print", "*"): ("any", "print of one record, reported by the routine"),
 ("mstl3_printsynclist", "localtime_r", "*"): ("any", "print of the current day"),
 ("mstl3_printsynclist", "ms_sid2nslc", "*"): ("any", "reported by the routine, the codes are left empty"),
 ("main", "ms_parse_raw2", "*"): ("any", "print of one record, reported by the routine"),
 ("main", "ms_parse_raw3", "*"): ("any", "print of one record, reported by the routine"),
 ("ms_decode_data", "ms_encoding_sizetype", "*"): ("any", "an unknown encoding is refused by the dispatch below (F06)"),
 ("ms_sid2nslc", "ms_xchan2seedchan", "*"): ("any", "codes that cannot be mapped are copied"),
 ("ms_nslc2sid", "ms_seedchan2xchan", "*"): ("any", "codes that cannot be mapped are copied"),
 ("ms3_addselect_comp", "ms_seedchan2xchan", "*"): ("any", "the pattern test before it guarantees three characters"),
}


def flagbit(name):
    m = re.search(r"#define\s+%s\s+(0x[0-9a-fA-F]+|\d+)" % name, open(os.path.join(build.REPO, "libmseed/libmseed.h")).read())
    if not m:
        raise build.AnalysisError("flag %s not found" % name)
    return int(m.group(1), 0)


def fallback(fn, c, src, lab):
    for (f, s, w), (mode, why) in FALLBACK.items():
        if s == c and f in ("*", fn, src) and w in ("*", src, lab):
            return mode
    if c == "msr3_parse" and lab == "wants more data":
        return "any"            # not a failure: the reader reads on, the buffer is finished
    return None



def _jobs(P):
    out = []
    for f in P.roots():
        if f.skipped or f.file.startswith("yyjson") or failflow.success(f, failflow.NULLV) is None and f.rty != "void":
            continue
        for n, i in enumerate(x for x in f.insts() if x.op == "call"):
            for m, (lab, fact) in enumerate(failflow.failures(P, i)):
                out.append((f.name, n, m))
    cost = {f.name: sum(len(b.insts) for b in f.blocks) for f in P.defined if not f.skipped}
    out.sort(key=lambda j: -cost[j[0]])
    return out


def _run(job):
    fn, n, m = job
    P = _P
    f = P.fn(fn)
    i = [x for x in f.insts() if x.op == "call"][n]
    lab, fact = failflow.failures(P, i)[m]
    X = paths.Explorer(f)
    bad = {}
    err = None
    c = resources.norm(model.callee(i))
    mode = fallback(fn, c, i.srcfn, lab)

    def rep(s, r, logged):
        if mode == "any" or mode == "log" and logged:
            return
        bad.setdefault(r.where(), logged)
    try:
        # skipping over what is not a record is a documented mode of the reader: decided with the mode off
        given = []
        if c == "msr3_parse":
            given = [(("e", "and", ("a", a.i), ("c", flagbit("MSF_SKIPNOTDATA"))), failflow.NULLV) for a in f.args if a.ty == "i32"]
        X.run(failflow.Fail(X, i, fact, rep, given))
    except Exception as e:
        err = str(e)
    return fn, c, lab, mode, i.where(), list(bad), err


def check():
    global _P
    R = report.Report("E02")
    R.rule("For every call of the library and the program that can fail (failure values by the convention of the called routine: "
           "negative result, null pointer, NSTERROR, zero for the parser's and system calls listed): on every path from the call with "
           "its result being exactly a failure value, the function does not return a definite success; functions without a result log a warning.")
    R.rule("Documented fallbacks are listed per function and step; where the fallback is a warning, the warning is on every such path.")
    _P = P = ir.load(inlined=True)
    jobs = _jobs(P)
    import gc
    gc.freeze()
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for fn, c, lab, mode, where, bad, err in pool.imap_unordered(_run, jobs, chunksize=1):
            R.count("failing_steps_followed")
            if mode:
                R.count("steps with a documented fallback")
            R.sample("%s: %s at %s %s" % (fn, c, where, lab))
            if err:
                R.undecided("%s at %s: %s" % (fn, where, err))
            for r in bad:
                R.violation("%s:%s:%s:%s" % (fn, c, lab, where.split(" ")[0]), "%s returns success at %s although %s at %s %s" % (fn, r.split(" <-")[0], c, where, lab))
    R.need("failing_steps_followed", 150)
    R.assume("Failure conventions of routines outside the analysed source are as listed in msa/failflow.py.")
    R.assume("One step fails at a time; what other calls return on the same path is unrestricted.")
    return R.finish()
